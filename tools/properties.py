#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
T="src/trapezoidation.rs"; M="src/monotone.rs"; N="src/nexus.rs"; F="src/outputs/formats/"
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    return d
VALID="a valid polygon set (>= 3 vertices per polygon, all vertices distinct, no two edges share a point except neighbours at their common vertex)"
props=[
P("C01","Triangles tile exactly the even-odd region of any valid polygon set",
  "For every valid polygon set (any number of polygons, holes and islands at any nesting depth, any orientation, any starting vertex, any polygon order) whose coordinate differences and products are exactly representable, and for every random insertion order, triangulation succeeds and the returned triangles have pairwise disjoint interiors and their union is exactly the even-odd interior of the set.",
  ["inputs","schedules"],VALID+" x every segment insertion order x coordinate type f32/f64 x translation and power-of-two scale",
  "The tests triangulate about ten fixed shapes and only check that a call returns Ok or, for a few, the area; the insertion order is random, so every run samples one order of each.",
  [T,N,M,"src/math.rs","src/segment.rs","src/querynode.rs","src/trapezoid.rs"],
  [("randomised incremental trapezoid decomposition",T+"::add_vertex/add_segment"),("point location",T+"::find_trapezoid_from_root"),("monotone mountains",T+"::triangulate_inner"),("fan cutting",M+"::build_fans"),("orientation predicate","src/math.rs::is_left_of_line")],
  ["PolygonList::triangulate","Polygon::triangulate"],
  [("query structure","point location DAG",T),("nexuses/trapezoids","planar subdivision",T+", "+N)]),
P("C02","A valid polygon set is always triangulated: no error, panic or endless loop",
  "Trapezoidation and triangulation of a valid polygon set always finish with success within a bounded number of operations, whatever the insertion order, in optimised builds as well as in builds with debug assertions and overflow checks enabled.",
  ["inputs","schedules","configurations"],VALID+" x every insertion order x release and debug-assertion builds",
  "Success of a dozen fixed shapes under one random order says nothing about other shapes or orders; a past regression (endless loop on one country outline) shows the failures are order- and shape-specific.",
  [T,N,M,"src/math.rs"],
  [("internal errors only for broken preconditions",T),("internal consistency assertions",T+"::check_consistency"),("reset of the mountain position",M+"::build_fans")],
  ["PolygonList::trapezoidize","PolygonList::triangulate"]),
P("C03","Triangles use only input vertices, meet edge to edge and use every vertex",
  "For a valid polygon set every triangle has three different input vertices as corners, every input vertex is a corner of some triangle, every polygon edge is a side of exactly one triangle and every other side is shared by exactly two triangles in opposite directions. Consequently the number of triangles is always vertices + 2*holes - 2*outer polygons.",
  ["inputs","schedules"],VALID+" (including collinear runs of vertices) x every insertion order",
  "The tests never look at adjacency, vertex use or triangle counts except one (a list of 6 triangles for one star).",
  [T,M,"src/fan_builder_state.rs"],
  [("one monotone mountain per diagonal/edge",T+"::triangulate_inner"),("every chain vertex is cut exactly once",M+"::build_fans")],
  ["PolygonList::triangulate"]),
P("C04","Every triangle has the winding its output format asks for",
  "Every triangle of non-zero area delivered to a format is oriented as the format's builder declares: counterclockwise (y up) by default and for all built-in formats, clockwise for builders which declare it, and each reverse_winding() flips it, so that reversing twice changes nothing. This holds for fans (with the first vertex as the fan centre) and lists, independent of the orientation in which the input polygons are given.",
  ["inputs","schedules","configurations"],VALID+" x every insertion order x every built-in or custom format, direct or reversed any number of times",
  "The only winding test asserts that the reversed output differs from the normal one for one star.",
  [M,F+"reverse_fan.rs",F+"fan_to_list.rs","src/outputs/triangle_winding.rs","src/outputs/fan_format.rs","src/outputs/list_format.rs"],
  [("deferred fans for opposite winding",M+"::build_fans"),("WINDING constant of builders",F+"reverse_fan.rs")],
  ["FanBuilder::new_fan/extend_fan","ListBuilder::add_triangle","formats::*"]),
P("C05","All output formats describe the same triangles of one trapezoidation",
  "Triangulating one trapezoidation with indexed fans, deindexed fans, delimited fans, indexed lists and deindexed lists, each into any of the supported containers and each direct or reversed, yields the same set of triangles. Deindexed formats contain exact copies of the input vertices, including any extra data of the user's vertex type; delimited output splits at the delimiter into exactly the fans, without leading or trailing delimiter.",
  ["inputs","configurations"],VALID+" x insertion orders x every built-in format x every container implementation (Vec, nested Vec, arrays, tuples, &mut, user-defined)",
  "The format tests run each format on one shape and check its type or length, never its content or agreement with another format.",
  ["src/outputs/formats/","src/outputs/fan.rs","src/outputs/list.rs"],
  [("fan to list adapter",F+"fan_to_list.rs"),("generic containers",F+"generic_fans.rs, "+F+"generic_list.rs"),("delimiter insertion",F+"delimited_fan.rs")],
  ["Trapezoidation::triangulate","formats::*"]),
P("C06","Successful triangulation only appends to the caller's output",
  "When a format writes into a collection that already has content, a successful triangulation leaves the existing content unchanged and in place and appends exactly what it would have written into an empty collection (delimited output: preceded by one delimiter when there was content). Any sequence of triangulations into one collection yields the concatenation of their results, and the returned output is that collection.",
  ["inputs","histories"],"every initial content of whole triangles/fans, every sequence of triangulations into the same collection, every built-in format and container",
  "Every test starts from an empty collection, except one which reuses a Vec without looking at it.",
  [F+"generic_fans.rs",F+"generic_list.rs",F+"delimited_fan.rs","src/outputs/list.rs","src/outputs/fan.rs"],
  [("initial length recorded",F+"generic_list.rs, "+F+"generic_fans.rs")],
  ["formats::*::new(&mut collection)"]),
P("C07","A failed triangulation leaves the caller's output exactly as it was",
  "Whenever triangulation into a built-in format returns an error - broken preconditions discovered before or in the middle of writing, too few or no vertices, a delimiter that equals an index at any position of any fan - the caller's collection has exactly the content it had before the call.",
  ["inputs","fault_sequences","histories"],"every built-in format and container x every initial content x every point at which the failure is discovered",
  "No test looks at the output collection after an error.",
  ["src/fan_builder_state.rs",F+"delimited_fan.rs",F+"generic_fans.rs",F+"generic_list.rs",F+"fan_to_list.rs",F+"reverse_fan.rs","src/outputs/list.rs","src/outputs/fan.rs"],
  [("fail() truncates to the initial length",F),("builder state machine","src/fan_builder_state.rs::complete")],
  ["collection passed to formats::*::new"]),
P("C08","Builders see a well-formed call sequence and their errors come back unchanged",
  "A custom format is initialised at most once with the polygon list being triangulated, then receives only new_fan/extend_fan (lists: add_triangle) calls, and ends with exactly one build() on success, or exactly one fail() if an error occurred after initialisation and not in build() itself. If a builder call returns an error no further triangle is delivered to it, fail() receives that error (as any other error it is called for: it is told what the caller is told), and triangulate returns that same error value (same display text and source); this also holds through reverse_winding() and into_fan_format().",
  ["inputs","fault_sequences"],"valid and invalid sets x insertion orders x an injected error at every single builder call x adapters",
  "One test injects one error of each kind at its first occurrence on one star and does not look at call order, repeated fail(), or the adapters.",
  ["src/fan_builder_state.rs",T,M,F+"reverse_fan.rs",F+"fan_to_list.rs","src/errors.rs"],
  [("FanBuilderState","src/fan_builder_state.rs"),("deferred fans",M+"::build_fans"),("error wrapping","src/errors.rs")],
  ["FanFormat/FanBuilder/ListFormat/ListBuilder implementations of the user","returned TriangulationError"]),
P("C09","Separators, empty polygons and too-small polygons are classified correctly",
  "Leading, trailing and repeated polygon separators and empty polygons have no effect on the result. A list without any vertex reports NoVertices, and a list with polygons of one or two vertices (and otherwise valid) reports NotEnoughVertices with the vertex count of such a polygon (stated in its text, too), wherever it stands in the list, both from triangulate and (for the latter) from trapezoidize.",
  ["inputs"],"every sequence of indices and separators (groups of 0, 1, 2 or more vertices at any position), as custom polygon list or nested vectors",
  "One should_panic test with a single two-vertex polygon; it is even outside the stable suite.",
  [T,"src/inputs/polygon_list.rs","src/errors.rs","src/fan_builder_state.rs"],
  [("grouping by NewPolygon",T+"::build"),("NoVertices","src/fan_builder_state.rs::complete")],
  ["PolygonList::trapezoidize","PolygonList::triangulate"]),
P("C10","Results do not depend on how polygons, vertices and indices are represented",
  "The same geometry given as owned or borrowed nested slices, boxed slices, a single polygon or a list of one, arrays, tuples or a user-defined vertex, f32, f64 or another exact coordinate type, a custom polygon list, or with substituted index types is accepted equally, and the indices in the output, converted back, form a correct triangulation and identify the right vertices. The list's own vertex count, index iteration and vertex lookup agree with the data, and substituting an index type that cannot hold an index panics rather than yielding wrong indices.",
  ["inputs","configurations"],VALID+" x representations x index types (u8 ... i64)",
  "Index substitution is tested on two small shapes for its type only; other representations are not tested at all.",
  ["src/inputs/polygon_list.rs","src/inputs/vertex.rs","src/mappable.rs"],
  [("blanket Polygon/PolygonList implementations","src/inputs/polygon_list.rs"),("IndexWith","src/inputs/polygon_list.rs"),("as_polygon_list transmute","src/inputs/polygon_list.rs"),("Vertex implementations","src/inputs/vertex.rs")],
  ["Polygon","PolygonList","IndexWith","SinglePolygon"]),
P("C11","A trapezoidation can be triangulated any number of times",
  "Once built, a trapezoidation can be triangulated repeatedly, in any order of formats, windings and failures of earlier calls: every successful call yields the same set of triangles, correct for the polygons it was built from, and other trapezoidations alive at the same time do not influence it.",
  ["inputs","histories"],"every sequence of triangulate calls (formats, windings, injected builder failures) on one or several trapezoidations, interleaved",
  "One test triangulates one trapezoidation once.",
  [T],[("Trapezoidation is immutable",T+"::Trapezoidation::triangulate")],["PolygonList::trapezoidize","Trapezoidation::triangulate"]),
P("C12","Expected work is near-linear in the size of a polygon",
  "For a single valid polygon of n vertices, of any shape and in any presentation, the expected amount of work (average over the random insertion orders) of trapezoidation plus triangulation grows near-linearly with n (documented: n log* n): going from 1,000 to 64,000 vertices neither the executed code per vertex nor the coordinate operations per vertex grow by more than about a third.",
  ["inputs","schedules"],"families of single polygons (convex, star, comb, spiral, monotone, zigzag, random region boundary) from about 1,000 to 65,000 vertices, averaged over insertion orders",
  "Tests do not measure; the benchmark is run by hand and compares wall-clock only.",
  [T,"src/math.rs",N,M],
  [("random insertion order",T+"::add_polygon"),("periodic relocation of pending vertices",T+"::add_polygon, src/math.rs::math_n"),("linear fan cutting",M+"::build_fans")],
  ["Polygon::triangulate"]),
P("C13","Any input at all is answered: no crash, hang or invented index",
  "For every polygon set, including ones which break the documented preconditions in any way (crossing, overlapping, touching or duplicate edges and vertices, collinear or spiked polygons, infinite or NaN coordinates), a release build returns either an error or output that refers only to vertices of the input, within a bounded number of operations and without panic or invalid memory access.",
  ["inputs","schedules"],"arbitrary index sequences over arbitrary (also non-finite) coordinates x insertion orders",
  "Three should_panic examples (not in the stable suite) only require that unwrap panics; one of them can loop for ever.",
  [T,N,M,"src/idx.rs"],
  [("InternalError instead of panics",T+", "+N),("unchecked indexing of query nodes is in range",T+"::find_trapezoid_from_root"),("mountain loop makes progress",M+"::build_fans")],
  ["PolygonList::triangulate"]),
P("C14","Rounding cannot corrupt well-separated floating-point input",
  "For polygon sets with arbitrary full-precision f32 or f64 coordinates in which no three vertices are collinear up to a few rounding errors, triangulation succeeds for every insertion order and the triangles tile exactly the even-odd region, judged in exact arithmetic on the given coordinates.",
  ["inputs","schedules"],"valid sets with full-mantissa f32/f64 coordinates, any magnitude, whose vertex triples are all well conditioned, x insertion orders",
  "The geographic test data is checked for Ok and total area with a tolerance only.",
  ["src/math.rs","src/inputs/vertex.rs",T,M],[("orientation predicate computes differences before products","src/math.rs::is_left_of_line")],["PolygonList::triangulate"]),
P("C15","Built-in containers and index mappings obey their documented laws",
  "The List, Fans and Fan implementations of Vec (flat, arrays, tuples, and through &mut) behave like a list of triangles/fans: push adds one at the end with its vertices in order, len counts them, truncate(k) keeps exactly the first k (and nothing changes when k >= len), is_empty agrees with len. Mappable applies the function to every member once, in order, and keeps the shape; winding reversal is an involution; polygon elements convert from indices and optional indices as documented.",
  ["histories","inputs"],"every sequence of push/truncate/len operations; every value and function for mappings",
  "No test calls these traits directly.",
  ["src/outputs/list.rs","src/outputs/fan.rs","src/mappable.rs","src/outputs/triangle_winding.rs","src/inputs/polygon_list.rs"],
  [("trait implementations","src/outputs/list.rs, src/outputs/fan.rs, src/mappable.rs")],["List","Fans","Fan","Mappable","TriangleWinding::reverse","PolygonElement::from"]),
P("C16","Diagnostic SVG output does not change results and stays in its directory",
  "With the debugging feature compiled in, triangulation of valid sets gives correct results at every output level, and files are created only below the configured output directory and only when a path and a level above zero are configured; with an unusable output directory triangulation still succeeds. At levels 2 and 3 a usable empty directory receives one numbered folder of SVG files per polygon edge, below level 2 there are none; the files carry labels exactly unless the variable that hides them is set.",
  ["inputs","configurations","fault_sequences"],"valid sets x output levels 0-3/unset/garbage x labels x path unset, existing, missing or unwritable",
  "No test sets the environment variables or looks at files.",
  ["src/debug/svg.rs","src/debug/env.rs",T],[("output_svg/advance_step",T),("environment configuration","src/debug/env.rs")],["TRIANGULATE_SVG_* environment variables","file system","PolygonList::triangulate"]),
P("C17","Calls do not influence one another: threads, nesting, failure, unwinding",
  "What one call returns depends only on its own arguments (and insertion order): triangulating or creating lists in several threads at once, calling the library again from within its callbacks into user code (coordinate operators, vertex and index accesses, builder methods), earlier calls that failed, and earlier calls that were unwound by a panic in user code never change, block or break another call. A Trapezoidation is Send and Sync, and any number of triangulations of one shared Trapezoidation, in any threads and interleavings, failed ones included, each give a correct result.",
  ["schedules","histories","inputs"],"histories of calls of every kind on up to four threads x interleavings at user callbacks x nesting x calls abandoned by a panic or failed by their builder",
  "Every test makes one call at a time, on one thread, and none fails or panics midway through a call.",
  [T,M,"src/fan_builder_state.rs","src/outputs/formats"],[("all state of a call lives in values it owns",T),("Trapezoidation is borrowed immutably by triangulate",T)],["PolygonList::triangulate","Trapezoidation::new","Trapezoidation::triangulate"]),
P("C18","Calls give back all memory they take",
  "Apart from what a call returns, nothing the library allocates outlives the call: once the results are dropped, calls of any kind (successful, failing because of their input, failing in the builder, or unwound by a panic in user code), repeated any number of times, leave the memory in use where it was after a bounded warm-up, in bytes and in blocks.",
  ["inputs","schedules","histories","fault_sequences"],"every kind of call x insertion orders x formats and containers x failures and panics at any position, repeated",
  "No test measures memory, and one that drops or leaks a little per call passes them all.",
  [T,M,"src/fan_builder_state.rs","src/outputs/formats","src/errors.rs"],[("builders are owned by FanBuilderState, which is consumed by build or fail","src/fan_builder_state.rs"),("nodes live in vectors owned by the trapezoidation",T)],["PolygonList::triangulate","PolygonList::trapezoidize","Trapezoidation::triangulate"]),
P("C19","Safe user code, however it misbehaves, cannot cause invalid memory access",
  "Safe implementations of the library's traits (polygon lists, vertices, coordinates, containers, fan builders) whose answers change between calls, contradict each other, lie about counts and lengths, fail or panic at any point, and indices or lengths out of range, never make the library read or write memory outside the objects it was given or made, use a value after it was dropped, or drop one twice: every outcome is output, an error or a panic. Looking up a vertex that a built-in polygon representation does not have panics.",
  ["inputs","schedules","histories","fault_sequences"],"valid and broken polygon sets x liars (vertex counts, index iterations, vertex contents, comparisons, container lengths, builders) x positions at which they misbehave x formats and containers",
  "Every test uses well-behaved implementations, in builds in which an access out of bounds of an unchecked container goes unnoticed.",
  ["src/idx.rs",T,"src/inputs/polygon_list.rs","src/inputs/vertex.rs","src/fan_builder_state.rs","src/outputs/list.rs","src/mappable.rs"],
  [("unchecked query node lookups stay in range",T+"::find_trapezoid_from_root"),("as_polygon_list and index transmutes","src/inputs/polygon_list.rs"),("builder state is consumed by build or fail exactly once","src/fan_builder_state.rs")],["PolygonList::triangulate","PolygonList::trapezoidize","Trapezoidation::triangulate","List","Fans","Polygon::get_vertex"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
