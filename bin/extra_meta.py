"""Properties beyond the integer overlay."""
MANIFEST = {}
NOT_APPLICABLE = {}


def add(prop):
    prop("C09", "Slicing divides a shape along the lines and loses nothing",
         "Slicing a shape by lines or paths yields the faces that the lines make of the region the fill rule gives the shape: every face once, with its holes, "
         "lines that end inside or run back on themselves divide nothing, and only contours below the minimum area are left out.",
         ["inputs", "configurations"],
         "all shapes and lines with representable crossings, 4 fill rules, every entry point, solver, direction and area limit",
         "Tests slice a few squares; dangling lines, lines along edges, islands and faces that touch themselves combine without end.",
         ["iOverlay/src/string/slice.rs", "iOverlay/src/string/overlay.rs", "iOverlay/src/string/graph.rs", "iOverlay/src/string/extract.rs",
          "iOverlay/src/string/filter.rs", "iOverlay/src/string/split.rs", "iOverlay/src/segm/winding_count.rs"],
         [("string overlay", "iOverlay/src/string/overlay.rs"), ("face extraction", "iOverlay/src/string/extract.rs"), ("loops of a walk", "iOverlay/src/string/split.rs")],
         "TLC computes the faces of the net of contours and lines; the library's shapes must be those, point by point, under random symmetries, scales, solvers, entry points and area limits.",
         observe=["IntSlice", "StringOverlay::into_graph_with_solver", "StringGraph::extract_shapes_custom"])
    prop("C10", "Clipping keeps exactly the stretches of the lines that the rule selects",
         "Clipping lines by a shape returns exactly the stretches inside (or, inverted, outside) of the region, those on its boundary according to the option, each stretch once and in the direction "
         "it was given in (lines that overlap in one direction count once); stretches that go on from each other are joined in paths.",
         ["inputs", "configurations"],
         "all shapes and lines with representable crossings, 4 fill rules, the 4 clip rules, every entry point and solver",
         "Tests count paths for a few lines; direction, overlap with edges and with each other, and the strategies for few segments are not covered.",
         ["iOverlay/src/string/clip.rs", "iOverlay/src/string/overlay.rs", "iOverlay/src/string/filter.rs", "iOverlay/src/segm/winding_count.rs", "iOverlay/src/split/solver_fragment.rs"],
         [("clip rule filter", "iOverlay/src/string/filter.rs"), ("joining of paths", "iOverlay/src/string/clip.rs")],
         "TLC computes the kept directed stretches; the library's paths must consist of exactly those, and go on where they can.",
         observe=["IntClip", "StringOverlay::clip_string_lines_with_solver"])
    prop("C11", "The floating-point interface gives the same figures in the caller's coordinates",
         "For contours and lines with f32 or f64 coordinates of any magnitude and position and of any point type, in any of the containers the library takes, "
         "overlay, graph, simplify, clip and slice return the figures that the integer interface specifies, in the caller's coordinates, with area limits in the caller's "
         "units; coordinates that need no rounding come back to the last bit.",
         ["inputs", "configurations"],
         "all inputs on a lattice the number type represents, all containers and entry points of the float interface, all filters",
         "Tests check point counts of a few unit squares; conversions, option forwarding and the many entry points are not covered.",
         ["iOverlay/src/float/overlay.rs", "iOverlay/src/float/graph.rs", "iOverlay/src/float/simplify.rs", "iOverlay/src/float/single.rs", "iOverlay/src/float/clip.rs",
          "iOverlay/src/float/slice.rs", "iOverlay/src/float/string_overlay.rs", "iOverlay/src/float/string_graph.rs", "iOverlay/src/float/filter.rs",
          "iOverlay/src/float/source/single.rs", "iOverlay/src/float/source/double.rs", "iOverlay/src/float/source/triple.rs"],
         [("entry points", "iOverlay/src/float/overlay.rs"), ("containers", "iOverlay/src/float/source/resource.rs"), ("filters", "iOverlay/src/float/filter.rs")],
         "Specified overlays, slices and clips are replayed on power-of-two lattices, where conversion is exact, and compared exactly. Inputs that need rounding are decided elsewhere, to a tolerance.",
         observe=["FloatOverlay", "FloatOverlayGraph", "SingleFloatOverlay", "SimplifyShape", "FloatClip", "FloatSlice", "FloatStringOverlay"])
    prop("C03", "Rounding stays small, never tangles, and always ends",
         "When edges cross between representable points, every call still ends, and every point farther than a few units of resolution from every input edge lies inside the result exactly when the rules select it: "
         "the summed winding of the returned contours is one there, or else zero. The contours stay valid and properly oriented, and no two edges of the result cross or overlap. "
         "This holds for integer input and for floating-point input of any scale, rotation and position.",
         ["inputs", "configurations"],
         "every set of contours, crossings anywhere, all rules, strategies, precisions, thread options",
         "Which points get rounded, and how often splitting has to start over, depends on all edges at once; tests show a few lucky inputs.",
         ["iOverlay/src/split/cross_solver.rs", "iOverlay/src/split/snap_radius.rs", "iOverlay/src/split/solver.rs", "iOverlay/src/split/solver_list.rs", "iOverlay/src/split/solver_tree.rs",
          "iOverlay/src/split/solver_fragment.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/float/overlay.rs"],
         [("rounded crossing", "iOverlay/src/split/cross_solver.rs"), ("snapping", "iOverlay/src/split/snap_radius.rs"), ("repeat until nothing is rounded", "iOverlay/src/split/solver_list.rs")],
         "TLC computes exact winding numbers and distances at 50 probe points of each scene; the library is probed there (integer, tiled by the hundred, float under random similarities). "
         "Recorded results are judged by TLC for form, crossing edges and winding. Distance allowed: 4 to 10 units by precision (100 at constant precision); the largest seen is 2.",
         technique="TLA+ specification evaluated by TLC: specified windings replayed against the library, and traces recorded from the library validated by the specification",
         observe=["Overlay::overlay_custom", "OverlayGraph::extract_shapes_custom", "FloatOverlay::overlay_custom"])
    prop("C12", "A stroke covers exactly its sections, joins and caps",
         "The stroke of paths, contours or shapes covers exactly the rectangles along every section, the joins the style asks for at every corner (bevel, miter with its limit, round) and the caps at both ends (butt, "
         "square, round, custom), however they overlap and however short the sections: closed paths have joins throughout, and repeated points change nothing. Shapes come in the asked direction, outlines with their "
         "holes, and the area limit applies. This holds for f32 and f64 at any scale, rotation and position.",
         ["inputs", "configurations"],
         "all paths, widths, joins, caps, containers, directions and filters",
         "Tests count shapes and points of a few paths; sections shorter than the stroke, paths running back, overlaps and turned caps combine without end.",
         ["iOverlay/src/mesh/stroke/builder.rs", "iOverlay/src/mesh/stroke/builder_join.rs", "iOverlay/src/mesh/stroke/builder_cap.rs", "iOverlay/src/mesh/stroke/offset.rs",
          "iOverlay/src/mesh/stroke/section.rs", "iOverlay/src/mesh/miter.rs", "iOverlay/src/mesh/rotator.rs", "iOverlay/src/mesh/style.rs", "iOverlay/src/mesh/boolean.rs"],
         [("joins", "iOverlay/src/mesh/stroke/builder_join.rs"), ("caps", "iOverlay/src/mesh/stroke/builder_cap.rs"), ("extraction", "iOverlay/src/mesh/boolean.rs")],
         "TLC judges 60 probe points of every scene against the union of pieces built in fixed point (in, out, or too close to tell); the library's stroke is probed there under random similarities.",
         observe=["StrokeOffset::stroke", "StrokeOffset::stroke_custom"])
    prop("C13", "An outline is the shape grown or shrunk by its band",
         "The outline of shapes is each outer contour with a band of the outer offset put on (or taken off, when negative) and each hole with a band of the inner offset taken off (or put on), with the joins of the style "
         "at its outer corners: points covered by more outer contours than holes are inside. A shape shrunk away leaves nothing, whatever the offset; contours without area and repeated points change nothing. "
         "Direction and area limit apply, for f32 and f64 at any scale, rotation and position.",
         ["inputs", "configurations"],
         "all shapes made of simple contours, all offsets, joins, containers, directions and filters",
         "Tests count the points of a few squares; offsets larger than edges, notches and whole figures are where offset curves turn inside out.",
         ["iOverlay/src/mesh/outline/builder.rs", "iOverlay/src/mesh/outline/builder_join.rs", "iOverlay/src/mesh/outline/offset.rs", "iOverlay/src/mesh/outline/section.rs",
          "iOverlay/src/mesh/miter.rs", "iOverlay/src/mesh/rotator.rs", "iOverlay/src/mesh/style.rs", "iOverlay/src/mesh/boolean.rs"],
         [("joins", "iOverlay/src/mesh/outline/builder_join.rs"), ("outers and holes", "iOverlay/src/mesh/outline/offset.rs"), ("extraction", "iOverlay/src/mesh/boolean.rs")],
         "TLC judges 60 probe points of every scene against contours and bands built in fixed point (in, out, or too close to tell); the library's outline is probed there under random similarities.",
         observe=["OutlineOffset::outline", "OutlineOffset::outline_custom"])
    prop("C14", "Dividing a contour at its own points loses nothing",
         "Dividing a contour yields contours that pass no point twice and together have exactly its directed edges, each as often as it has; "
         "it yields none only if the contour passes no point twice or has fewer than three points.",
         ["inputs"],
         "all contours; a point that follows itself is an edge as well",
         "Tests count the parts of three figures; points passed three times, loops within loops and loops at the greatest point are not among them.",
         ["iOverlay/src/core/divide.rs", "iOverlay/src/geom/id_point.rs"],
         [("closing of loops", "iOverlay/src/core/divide.rs")],
         "A stack machine that divides any contour is model-checked on all words of up to 7 (thorough 8) points; divisions recorded from the library are judged by the specification.",
         technique="TLA+ state machine model-checked by TLC; traces recorded from the library validated by the specification",
         observe=["ContourDecomposition::decompose_contours"])
    prop("C15", "Slices and clips stay right when crossings are rounded",
         "For shapes and lines with any integer or floating-point coordinates, also where their crossings have to be rounded: away from the edges and lines the slices cover exactly the region the "
         "fill rule gives the shape, two points in the region that see each other past all lines lie in the same slice, two that one line running right across the region separates "
         "lie in different ones; clipping keeps of every line exactly what lies in (or, inverted, outside) the region, in the line's direction and once, and returns nothing that is not on a line.",
         ["inputs", "configurations"],
         "all shapes and lines of integer and float coordinates, 4 fill rules, clip rules, every solver and entry point; points farther from edges than the rounding reaches",
         "Tests slice and clip squares along their grid; what rounding does to many lines that cross at one place depends on every coordinate.",
         ["iOverlay/src/string/slice.rs", "iOverlay/src/string/clip.rs", "iOverlay/src/string/extract.rs", "iOverlay/src/string/split.rs", "iOverlay/src/split/solver.rs",
          "iOverlay/src/split/snap_radius.rs", "iOverlay/src/float/clip.rs", "iOverlay/src/float/slice.rs", "iOverlay/src/float/string_overlay.rs"],
         [("splitting and rounding", "iOverlay/src/split/solver.rs"), ("faces", "iOverlay/src/string/extract.rs"), ("kept stretches", "iOverlay/src/string/clip.rs")],
         "TLC gives windings and clearances at probe points and marks on the lines, and which pairs of points have to share a slice or must not; the library's slices and paths are probed there. "
         "Bounded by the generated scenes; nothing is judged nearer to an edge than rounding reaches.",
         observe=["IntSlice", "IntClip", "FloatSlice", "FloatClip", "StringGraph::extract_shapes_custom"])
    prop("C16", "Answers depend only on what went in, and results go in again",
         "In a program that fills overlays with contours and with earlier results, copies them, turns them into graphs, asks those any number of times under any rules, and simplifies, slices and clips results, "
         "in any order: each answer is the one for the contents of the object that was asked, whatever happened before and to others; and a result that is used as input counts as "
         "exactly the region it stands for (the union of slices is the sliced shape again).",
         ["programs", "inputs", "configurations"],
         "every sequence of operations of the integer and the float interface on contours with representable crossings",
         "Tests call one operation on fresh objects; chains of operations, graphs that are asked repeatedly, and shapes produced by the library (touching, with holes, slices that share edges) as inputs are not among them.",
         ["iOverlay/src/core/overlay.rs", "iOverlay/src/core/graph.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/core/simplify.rs", "iOverlay/src/segm/build.rs",
          "iOverlay/src/string/overlay.rs", "iOverlay/src/float/overlay.rs", "iOverlay/src/float/graph.rs"],
         [("graph asked repeatedly", "iOverlay/src/core/extract.rs"), ("adding contents", "iOverlay/src/core/overlay.rs")],
         "A TLA+ state machine of sessions: model-checked in full for all programs of 3 (thorough 4) steps over pairs of triangles (results enclose what set algebra says, asking changes nothing), "
         "and 3,000 behaviours of 18 (thorough: to 30) steps replayed step by step in both interfaces.",
         technique="TLA+ state machine of sessions model-checked by TLC; its behaviours replayed step by step in the library",
         observe=["Overlay", "OverlayGraph", "FloatOverlay", "FloatOverlayGraph", "Simplify", "IntSlice", "IntClip"])
    prop("C17", "Vectors fit together when crossings are rounded",
         "For contours with any integer coordinates, also where crossings have to be rounded: the separate vectors do not cross or overlap, each states on its two sides what the vectors next to it "
         "state on theirs (nothing lies outside of them all), and beyond the reach of rounding the sides they state are what the fill rule says of subject and clip; "
         "the outlines are closed, run along exactly those vectors between which and beyond which the overlay rule differs, each once, with the same sides and the region on the right, "
         "and enclose exactly the region the rules select.",
         ["inputs", "configurations"],
         "every set of contours, crossings anywhere, all rules, strategies, precisions, thread options, every entry point of the vector output",
         "Tests list the vectors of a few figures along the grid; how sides are told when pieces are moved by rounding, merged and cancelled depends on all edges at once.",
         ["iOverlay/src/vector/extract_vectors.rs", "iOverlay/src/vector/edge.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/split/solver.rs",
          "iOverlay/src/core/overlay.rs", "iOverlay/src/segm/merge.rs"],
         [("sides of a piece", "iOverlay/src/fill/solver.rs"), ("walks along vectors", "iOverlay/src/vector/extract_vectors.rs")],
         "Nets of small scenes are model-checked: they fit together, tell the truth, and damage to any side of any edge is noticed. TLC computes windings and clearances at 50 probe points per scene; the library's nets and outlines "
         "are probed there and climbed from the bottom to the top in both directions. Recorded nets and outlines are judged by the specification.",
         technique="TLA+ specification of nets model-checked by TLC; specified windings replayed against the library, and recorded nets validated by the specification",
         observe=["Overlay::into_separate_vectors", "Overlay::into_shape_vectors", "OverlayGraph::extract_separate_vectors", "OverlayGraph::extract_shape_vectors"])
