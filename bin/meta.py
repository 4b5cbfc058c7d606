#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after editing it)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, level_note, state=(), observe=(), hook=None, technique=None,
         level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  note=level_note, state=state, observe=observe, hook=hook, technique=technique, level=level))


TR = ("TLA+ specification evaluated by TLC; its behaviours replayed in the library and the results compared exactly")

prop("C01", "The result covers exactly the points the rules select",
     "For any subject and clip contours (self-crossing, overlapping, repeated or degenerate ones too), any fill rule and any overlay rule, "
     "a point away from the edges lies inside the returned shapes exactly when the overlay rule holds for what the fill rule says of its "
     "winding numbers in the subject and in the clip. The region enclosed by the output is that region exactly whenever all edges cross in points the "
     "coordinates can represent.",
     ["inputs", "configurations"],
     "every set of integer contours whose crossings are representable, 4 fill rules, 7 overlay rules, every place and orientation in the coordinate range",
     "The tests compare a few hundred fixed inputs, most under one or two rules; the rule tables, the sweep that carries winding numbers and the splitter "
     "have to be right for every arrangement of edges.",
     ["iOverlay/src/core/overlay.rs", "iOverlay/src/core/graph.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/core/filter.rs", "iOverlay/src/core/link.rs",
      "iOverlay/src/fill/solver.rs", "iOverlay/src/segm/build.rs", "iOverlay/src/segm/merge.rs", "iOverlay/src/split/solver.rs", "iOverlay/src/split/cross_solver.rs",
      "iOverlay/src/core/fill_rule.rs"],
     [("segments with winding counts", "iOverlay/src/segm/build.rs"), ("splitting at crossings", "iOverlay/src/split/solver.rs"),
      ("winding sweep", "iOverlay/src/fill/solver.rs"), ("rule filter", "iOverlay/src/core/extract.rs"), ("contour walk", "iOverlay/src/core/extract.rs")],
     "TLC computes the arrangement and the boundary under all 28 rule pairs for generated scenes of 8 families; each is replayed under 12 (thorough 60) "
     "random symmetries, scales, shifts, solvers and entry points and compared piece by piece. Bounded by the generated scenes (at most 44 edges).",
     observe=["Overlay::overlay", "Overlay::overlay_custom", "OverlayGraph::extract_shapes"])

prop("C02", "Shapes are outlines with their holes, cleanly separated",
     "Every result is a list of shapes, each an outline followed by its holes: outlines run in the requested direction and holes against it, no contour has "
     "fewer than three points, no area, or two equal neighbouring points. The contours are the closed walks along the boundary of the region, "
     "every hole is listed with the smallest outline that contains it, and contours that only touch in a point are separate contours in the way the walk defines.",
     ["inputs", "configurations"],
     "every set of integer contours whose crossings are representable, all rules, both directions",
     "Tests show particular nestings; holes that touch outlines, holes that touch holes and islands in holes combine without end, and binding depends on the geometry below each hole.",
     ["iOverlay/src/core/extract.rs", "iOverlay/src/core/nearest_vector.rs", "iOverlay/src/bind/solver.rs", "iOverlay/src/bind/segment.rs", "iOverlay/src/geom/v_segment.rs"],
     [("contour walk", "iOverlay/src/core/extract.rs"), ("choice of the next link", "iOverlay/src/core/nearest_vector.rs"), ("hole binding", "iOverlay/src/bind/solver.rs")],
     "TLC extracts and binds the contours from the specified boundary; the library's shapes must equal one of the specified outcomes point by point (cyclic rotation and order of shapes aside). "
     "Boundaries that touch themselves are compared exactly in the original orientation only.",
     observe=["Overlay::overlay_custom", "OverlayGraph::extract_shapes_custom"])

prop("C04", "Solver, precision, threads and size of the input do not change the result",
     "With any split strategy, precision, thread option, and any number of unrelated contours processed in the same call, the shapes for the same input are the same when all crossings are "
     "representable; it also is in every build of the library, with or without its threads and debug checks. Large inputs, which use other data structures and parallel sorting, follow the same rules as small ones.",
     ["configurations", "inputs"],
     "all strategies, precisions, thread options and builds, calls from one contour to tens of thousands of edges",
     "Tests run the strategies on the same few hundred small inputs; the tree, the grid and the parallel sorts only come to work on large ones.",
     ["iOverlay/src/core/solver.rs", "iOverlay/src/split/solver_list.rs", "iOverlay/src/split/solver_tree.rs", "iOverlay/src/split/solver_fragment.rs",
      "iOverlay/src/split/grid_layout.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/bind/solver.rs", "iOverlay/src/util/sort.rs"],
     [("choice of strategy", "iOverlay/src/core/solver.rs"), ("grid fragments", "iOverlay/src/split/grid_layout.rs"), ("parallel sort", "iOverlay/src/util/sort.rs"),
      ("hole tree", "iOverlay/src/bind/solver.rs")],
     "Specified scenes are replayed singly under every strategy, and by the hundred in one call (up to 48,000 points), also inside one common frame, and each scene's part of the result compared with its specification.",
     observe=["Overlay::overlay_custom", "OverlayGraph::extract_shapes_custom"])

prop("C05", "The way the same contours are handed over does not matter",
     "The result is the same whatever the order of contours, the point a contour starts in, repeated points (also the last repeating the first), points in the middle of an edge, "
     "stretches walked back and forth, and contours that enclose nothing. It is also the same through every constructor and add call, single or grouped.",
     ["inputs", "programs"],
     "every presentation of the same oriented contours, every entry point of the integer overlay",
     "Tests feed mostly minimal contours through one constructor; each presentation is another path through segment building.",
     ["iOverlay/src/segm/build.rs", "iOverlay/src/segm/merge.rs", "iOverlay/src/core/overlay.rs"],
     [("segment building", "iOverlay/src/segm/build.rs"), ("segment merging", "iOverlay/src/segm/merge.rs")],
     "Specified scenes are replayed with random harmless edits through six entry points and compared with the unedited specification.",
     observe=["Overlay::with_contour", "Overlay::with_contours", "Overlay::with_shapes", "Overlay::add_path_iter", "Overlay::add_shape", "Overlay::add_shapes", "Overlay::add_contour"])

prop("C06", "Output options do what they say and nothing else",
     "The minimum area removes exactly the contours below it (an outline together with its holes) and changes nothing else; the direction option only reverses contours, or, where contours touch, "
     "takes them apart the other way; the simplify option only removes points in the middle of straight runs and leaves none.",
     ["inputs", "configurations"],
     "all inputs with representable crossings, all minimum areas, both directions, simplify on and off",
     "Tests use the default options nearly everywhere; a limit that equals an area, or a removed contour that shares points with kept ones, is not among them.",
     ["iOverlay/src/core/extract.rs", "iOverlay/src/core/overlay.rs"],
     [("contour validation", "iOverlay/src/core/extract.rs")],
     "Specified shapes, filtered by specified area, against the library under random options with limits taken at and next to the areas that occur.",
     observe=["Overlay::overlay_custom", "OverlayGraph::extract_shapes_custom"])

prop("C07", "Simplify normalises shapes and is stable",
     "Simplifying a contour, contours or shapes under a fill rule yields exactly the region that rule gives them, as valid shapes, with contours below the minimum area removed. "
     "Simplifying the result again under a rule that fills it changes nothing.",
     ["inputs", "configurations"],
     "all integer contours with representable crossings, 4 fill rules, both directions, all area limits",
     "Tests simplify a handful of shapes once; that the result is a fixed point is not tested.",
     ["iOverlay/src/core/simplify.rs", "iOverlay/src/core/overlay.rs", "iOverlay/src/core/extract.rs"],
     [("simplify entry points", "iOverlay/src/core/simplify.rs")],
     "As C01/C02 for the simplify entry points, and a second simplification compared with the first where the boundary does not touch itself.",
     observe=["Simplify::simplify"])

prop("C08", "Vector output describes the same result edge by edge",
     "The separate vectors are all pieces of the arrangement, each with exactly the information which of subject and clip lie on its left and right. "
     "The vector shapes are the boundary of the region in closed, clockwise outlines with their holes, each edge with the right side information.",
     ["inputs", "configurations"],
     "all integer contours with representable crossings, 4 fill rules, 7 overlay rules, all solvers",
     "Tests check side information on a few squares.",
     ["iOverlay/src/vector/extract_vectors.rs", "iOverlay/src/vector/edge.rs", "iOverlay/src/bind/segment.rs", "iOverlay/src/core/overlay.rs"],
     [("vector extraction", "iOverlay/src/vector/extract_vectors.rs"), ("hole binding for vectors", "iOverlay/src/bind/segment.rs")],
     "Every piece and its four side bits compared with the specified arrangement; paths compared with the specified shapes.",
     observe=["Overlay::into_separate_vectors", "Overlay::into_shape_vectors", "OverlayGraph::extract_separate_vectors", "OverlayGraph::extract_shape_vectors"])

import extra_meta  # noqa: E402,F401  further properties
extra_meta.add(prop)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            a["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 bin/check.py setup", "checks": [], "not_applicable": []}
    m.update(extra_meta.MANIFEST)
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] in extra_meta.NOT_APPLICABLE:
            m["not_applicable"].append({"property": p["id"], "reason": extra_meta.NOT_APPLICABLE[p["id"]]})
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']} quick",
                            "thorough_cmd": f"python3 bin/check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                            "technique": p["technique"] or TR, "level": p["level"], "level_note": p["note"]})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
