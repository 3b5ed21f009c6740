#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
S = "rstar/src/"
props = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files], state=state or [],
            mechanism=[dict(name=n, where=S+w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

P("C01", "Content conservation",
  "After any sequence of insertions, bulk loading, removals and drains, iterating a tree (by shared reference, mutably, or by consuming it) yields every element that was put in and not yet taken out, exactly as often as it is held: nothing is lost, duplicated or altered. The reported size always equals that number of elements.",
  ["histories","inputs","configurations"],
  "Every finite history of mutating calls, every multiset of elements (duplicates and equal coordinates included), every valid parameter set and dimension.",
  "The tests build a tree once by bulk load or by 1000 random insertions and compare counts or sets; mixed histories, duplicates, several parameter sets and the reinsertion/split cascades they trigger are not quantified over.",
  ["rtree.rs","algorithm/rstar.rs","algorithm/removal.rs","algorithm/iterators.rs","algorithm/bulk_load/bulk_load_sequential.rs"],
  [("forced reinsertion and split",  "algorithm/rstar.rs"), ("size bookkeeping", "rtree.rs"), ("reassembly after removal","algorithm/removal.rs")],
  ["RTree::iter","RTree::iter_mut","IntoIterator","RTree::size"],
  [dict(name="size", meaning="number of held elements", where=S+"rtree.rs"), dict(name="root", meaning="the element hierarchy", where=S+"rtree.rs")])
P("C02", "Exact membership and single removal",
  "A membership test for an element is true exactly if the tree holds an equal element. Removing an element takes out and returns exactly one held element equal to it, or changes nothing and returns nothing if there is none; every other element stays.",
  ["histories","inputs","configurations"],
  "Every history, every held multiset (equal elements must have equal, non-empty envelopes), every queried element, held or not.",
  "Tests remove each element of one random tree once; duplicates, near misses, elements lying on node borders and removal from trees shaped by earlier removals and reinsertions are not covered.",
  ["rtree.rs","algorithm/removal.rs","algorithm/selection_functions.rs","algorithm/iterators.rs"],
  [("search restricted to nodes whose envelope contains the element", "algorithm/selection_functions.rs"), ("drain limited to one element","rtree.rs")],
  ["RTree::contains","RTree::remove"])
P("C03", "Envelope queries are exact",
  "For any tree and query box, the containment query returns exactly the elements whose envelope lies entirely in the closed box, and the intersection query exactly the elements whose envelope shares at least one point with it (touching counts), each once per held copy. The shared, mutable and internally iterating variants return the same elements.",
  ["inputs","histories","configurations"],
  "Every tree reachable by any history, every box including degenerate ones and boxes touching element or node borders, every dimension and parameter set.",
  "Tests use one random tree and one box each; borders, zero-extent boxes, mutable and internal variants and trees after removals are not exercised.",
  ["rtree.rs","algorithm/iterators.rs","algorithm/selection_functions.rs","aabb.rs"],
  [("envelope-guided pruning","algorithm/selection_functions.rs"),("explicit-stack and recursive traversals","algorithm/iterators.rs"),("box containment and intersection","aabb.rs")],
  ["RTree::locate_in_envelope*","RTree::locate_in_envelope_intersecting*"])
P("C04", "Point location is exact",
  "Locating all elements at a point returns exactly the elements covering it; locating one returns one of them, or nothing exactly if there is none; removing at a point takes out exactly one covering element and returns it, or changes nothing if there is none. The shared, mutable and internally iterating variants agree.",
  ["inputs","histories","configurations"],
  "Every reachable tree, every point including corners, borders and interior points, every element type including user-defined ones that cover only part of their envelope.",
  "The existing test's comparison result is discarded, and only rectangles from one bulk-loaded tree are queried.",
  ["rtree.rs","algorithm/iterators.rs","algorithm/selection_functions.rs","object.rs"],
  [("point pruning and leaf test","algorithm/selection_functions.rs"),("single-element variants","rtree.rs")],
  ["RTree::locate_at_point*","RTree::locate_all_at_point*","RTree::remove_at_point"])
P("C05", "Nearest neighbour is a true minimum",
  "The single nearest neighbour query returns a held element whose distance to the query point is not larger than that of any other held element, and nothing exactly if the tree is empty. The variant reporting the distance reports the squared distance of the element it returns.",
  ["inputs","histories","configurations"],
  "Every reachable tree, every query point (inside, outside, on borders, equidistant to several elements), every element type whose distance agrees with its envelope, every dimension and parameter set; coordinates for which squared distances are exact.",
  "The test compares 100 random queries on one random point tree; pruning by the min-max bound goes wrong only for particular geometric constellations, extended elements, ties, dimensions or node sizes.",
  ["rtree.rs","algorithm/nearest_neighbor.rs","aabb.rs","object.rs"],
  [("best-first search with min-max pruning","algorithm/nearest_neighbor.rs"),("min-max distance","aabb.rs"),("fallback to the iterator","rtree.rs")],
  ["RTree::nearest_neighbor","RTree::nearest_neighbor_with_distance_2"])
P("C06", "Nearest neighbour iteration is complete and sorted",
  "Iterating nearest neighbours yields every held element exactly once per held copy, in non-decreasing order of distance to the query point, paired with its true squared distance. Stopping early leaves only elements that are at least as far away as the last one yielded.",
  ["inputs","histories","configurations"],
  "Every reachable tree, query point and stopping position, including trees and node sizes for which the search frontier outgrows its inline storage.",
  "Tests check 50 queries on one 1000-point tree with default parameters: ties, extended elements, large nodes and partial iteration are not covered.",
  ["algorithm/nearest_neighbor.rs","rtree.rs"],
  [("frontier heap with inline storage that spills","algorithm/nearest_neighbor.rs"),("heap ordering","algorithm/nearest_neighbor.rs")],
  ["RTree::nearest_neighbor_iter","RTree::nearest_neighbor_iter_with_distance_2"])
P("C07", "All nearest neighbours are exactly the ties",
  "The query for all nearest neighbours returns exactly the held elements whose distance to the query point is the minimum, each once per held copy, together with that squared distance; it returns nothing exactly if the tree is empty.",
  ["inputs","histories","configurations"],
  "Every reachable tree and query point, in particular points equidistant to many elements spread over different nodes.",
  "The test only checks that returned elements share a distance, on random points where ties do not occur.",
  ["algorithm/nearest_neighbor.rs","rtree.rs"],
  [("prefix of the sorted iteration","algorithm/nearest_neighbor.rs")],
  ["RTree::nearest_neighbors","RTree::nearest_neighbors_with_distance_2"])
P("C08", "Distance range queries are exact",
  "The query for elements within a distance returns exactly the held elements whose squared distance to the query point is less than or equal to the given squared radius, each once per held copy, on every tree including the empty one.",
  ["inputs","histories","configurations"],
  "Every reachable tree, query point and radius (zero, exactly on an element, negative, huge), every element type including those relying on the default distance bound.",
  "One random tree and one circle are tested; boundary radii and extended or user-defined elements are not.",
  ["rtree.rs","algorithm/selection_functions.rs","object.rs","aabb.rs"],
  [("distance pruning","algorithm/selection_functions.rs"),("bounded distance","object.rs"),("point to box distance","aabb.rs")],
  ["RTree::locate_within_distance"])
P("C09", "Popping removes exactly the returned nearest element",
  "Popping the nearest neighbour removes and returns one held element at minimum distance from the query point, and only that very element, even if equal elements or others at the same place are held. It returns nothing exactly if the tree is empty, so repeated popping empties the tree in order of distance.",
  ["histories","inputs","configurations"],
  "Every reachable tree, any query points, histories interleaving popping with insertion and removal, indistinguishable elements.",
  "Only a two-element documentation example exercises it.",
  ["rtree.rs","algorithm/selection_functions.rs","algorithm/removal.rs","algorithm/nearest_neighbor.rs"],
  [("removal by address","algorithm/selection_functions.rs")],
  ["RTree::pop_nearest_neighbor"])
P("C10", "Draining removes exactly what it yields",
  "A drain yields only elements matching its selection and, if run to the end, all of them. Dropping it at any point, however many elements it has yielded, leaves a tree that holds exactly the elements not yielded, with the right size, and that answers later queries and accepts later changes like any other tree.",
  ["histories","inputs","configurations"],
  "Every reachable tree, every kind of drain (everything, in a box, intersecting a box, within a distance, custom selection), every stopping position.",
  "The test stops two drains at a fixed count and checks counts only; the reassembly depends on the exact position in the hierarchy at which the drain stops.",
  ["algorithm/removal.rs","rtree.rs"],
  [("cursor stack with swap-remove","algorithm/removal.rs"),("reassembly and envelope recomputation on pop and drop","algorithm/removal.rs")],
  ["RTree::drain*","DrainIterator"],
  [dict(name="node_stack", meaning="path of detached nodes with cursor and number of removed elements", where=S+"algorithm/removal.rs")])
P("C11", "Drains survive leaks and panicking callbacks",
  "If a drain is leaked before it has reported its end, the tree is afterwards a valid, empty tree that can be used again. If a user-supplied test (selection or equality) panics while elements are drained or removed and the panic is caught, the tree still holds exactly the elements that were not yielded and stays fully usable.",
  ["fault_sequences","histories","inputs"],
  "Every reachable tree, every position at which the drain is leaked or the callback panics, and every later use of the tree.",
  "One leak of a fresh drain is tested; no test panics inside a callback.",
  ["algorithm/removal.rs"],
  [("placeholder root while draining","algorithm/removal.rs"),("reassembly in the destructor","algorithm/removal.rs")],
  ["DrainIterator","RTree::remove","RTree::remove_with_selection_function"])
P("C12", "Node hierarchy is well formed with tight envelopes",
  "After any history, the hierarchy visible through the root holds exactly the tree's elements; every inner node's envelope is the smallest one enclosing its children; no inner node but the root is empty; and no node mixes elements with inner nodes as children.",
  ["histories","inputs","configurations"],
  "Every history of insertion, bulk load, removal, popping and partial drains, for every parameter set and dimension.",
  "The internal sanity check runs after insertions of random points with default parameters, never after removals, drains or insertions into bulk-loaded trees of varying size.",
  ["node.rs","algorithm/rstar.rs","algorithm/removal.rs","algorithm/bulk_load/bulk_load_sequential.rs"],
  [("envelope merging on descent and recomputation on split, reinsertion and removal","algorithm/rstar.rs"),("reassembly","algorithm/removal.rs")],
  ["RTree::root","ParentNode::children","ParentNode::envelope"])
P("C13", "Incrementally built trees stay balanced and within node limits",
  "In a tree built from an empty one by insertions with any removals or drains in between, all elements lie at the same depth and no node has more children than the configured maximum. If nothing was removed, every inner node except the root has at least the configured minimum of children.",
  ["histories","inputs","configurations"],
  "Every insertion order and multiset (all points equal, collinear, clustered, sorted), every valid parameter set including a reinsertion count of zero and the extreme minimum sizes.",
  "Checked by one test for 1000 random points and default parameters only.",
  ["algorithm/rstar.rs","params.rs"],
  [("overflow treatment, split and root growth","algorithm/rstar.rs")],
  ["RTree::root"])
P("C14", "No valid history panics or hangs",
  "With valid parameters and finite coordinates small enough that their sums, squared distances and box volumes do not overflow, no call in any history of insertions, bulk loading, removals, drains and queries panics, aborts or fails to return.",
  ["histories","inputs","configurations"],
  "Every history over every tree, including insertion into bulk-loaded trees of every size, operations on empty or emptied trees, duplicates and integer coordinates.",
  "Tests follow a handful of histories; the internal 'this is a bug in rstar' panics and arithmetic overflow depend on tree shapes that the tests do not reach.",
  ["algorithm/rstar.rs","algorithm/removal.rs","algorithm/bulk_load/bulk_load_sequential.rs","algorithm/bulk_load/cluster_group_iterator.rs","algorithm/nearest_neighbor.rs"],
  [("height-independent reinsertion","algorithm/rstar.rs"),("number of clusters","algorithm/bulk_load/cluster_group_iterator.rs")],
  ["every public method of RTree"])
P("C15", "Bulk loading is equivalent to insertion",
  "Bulk loading any list of elements, of any length and order, with any valid parameters and dimension, gives a tree that holds exactly those elements, has a well-formed hierarchy, answers all queries exactly and accepts any later insertion and removal. Up to 100,000 elements, no node has more children than the larger of the configured maximum and two to the power of the dimension.",
  ["inputs","configurations","histories"],
  "Every list length (in particular around the capacities at which the number of levels changes), order and multiplicity, every parameter set and dimension, followed by any history.",
  "Tests load random points of some sizes in dimensions 2 to 4 with default parameters, compare sets (so duplicates are invisible) and insert ten more points in one case.",
  ["algorithm/bulk_load/bulk_load_sequential.rs","algorithm/bulk_load/cluster_group_iterator.rs","rtree.rs"],
  [("recursive partitioning into slabs","algorithm/bulk_load/bulk_load_sequential.rs"),("slab size and cluster count","algorithm/bulk_load/cluster_group_iterator.rs")],
  ["RTree::bulk_load","RTree::bulk_load_with_params"])
P("C16", "Tree-to-tree intersection is complete and free of duplicates",
  "Intersecting two trees returns exactly the pairs of an element of the first and an element of the second whose envelopes share at least one point, each pair exactly once per pair of held copies, for any combination of sizes including empty trees and a tree with itself.",
  ["inputs","histories","configurations"],
  "Every pair of reachable trees of equal or different height and size, touching and nested boxes.",
  "One pair of bulk-loaded rectangle trees is compared exactly; trees of different height, after removals, with touching boxes or empty trees are not.",
  ["algorithm/intersection_iterator.rs","rtree.rs"],
  [("pairwise descent","algorithm/intersection_iterator.rs")],
  ["RTree::intersection_candidates_with_other_tree"])
P("C17", "Custom selections follow the node and element tests",
  "A search guided by a user-defined selection returns exactly the elements that pass its element test and all of whose enclosing nodes, the root included, pass its node test, each once per held copy; elements below a rejected node are neither returned nor shown to the element test. Removal and draining with the same selection affect only such elements.",
  ["inputs","histories","configurations"],
  "Every reachable tree and every deterministic selection, including ones whose node test rejects nodes that contain acceptable elements.",
  "One monotone selection on one tree and one always-false node test on a single-element tree are tested.",
  ["algorithm/iterators.rs","algorithm/removal.rs","algorithm/selection_functions.rs","rtree.rs"],
  [("root and inner node test","algorithm/iterators.rs"),("node test when draining","algorithm/removal.rs")],
  ["RTree::locate_with_selection_function*","RTree::remove_with_selection_function","RTree::drain_with_selection_function"])
P("C18", "Internal iteration visits each match once and stops on request",
  "Internally iterating queries call the visitor exactly once for each matching element copy until the visitor asks to stop; after that the visitor is never called again and the caller gets back the value it stopped with. If the visitor never stops, the query reports completion.",
  ["inputs","histories"],
  "Every reachable tree, every query of the internally iterating kind (shared and mutable) and every position at which the visitor stops.",
  "No test calls the internally iterating methods.",
  ["algorithm/iterators.rs","rtree.rs"],
  [("recursive traversal with early exit","algorithm/iterators.rs")],
  ["RTree::*_int","RTree::*_int_mut"])
P("C19", "Mutable access reaches the held elements and nothing else",
  "Changing an element's associated data through any mutable access changes exactly that held element: all later reads, queries and removals see the new data, no other element changes, and neither the set of elements nor the hierarchy is affected.",
  ["histories","inputs"],
  "Every history mixing mutable iteration (complete or stopped early) and mutable queries with insertions, removals, drains and reads.",
  "Tests use mutable iteration only to read.",
  ["algorithm/iterators.rs","rtree.rs"],
  [("mutable traversal","algorithm/iterators.rs")],
  ["RTree::iter_mut","RTree::locate_*_mut"])
P("C20", "Invalid parameters are rejected, valid ones accepted",
  "Creating a tree, empty or by bulk loading, panics if the parameters break a documented rule: maximum at least 4, minimum at least 1 and at most half the maximum rounded up, reinsertion count smaller than the difference of maximum and minimum, at least two dimensions. It succeeds for every parameter set that keeps all of them.",
  ["configurations"],
  "Every combination of minimum, maximum, reinsertion count and dimension, for both ways of creating a tree.",
  "No test creates a tree with invalid parameters, and valid ones are sampled twice.",
  ["params.rs","rtree.rs"],
  [("parameter verification","params.rs")],
  ["RTree::new_with_params","RTree::bulk_load_with_params","RTree::default"])
P("C21", "Serialisation round trip preserves the tree",
  "Serialising any tree and reading it back gives a tree with the same elements, size and hierarchy, which behaves the same in every later query and change.",
  ["histories","inputs","configurations"],
  "Every reachable tree (empty, emptied by removal or leak, bulk-loaded, incrementally built), every serialisable element type, any later history on either copy.",
  "One bulk-loaded 20-point tree is round-tripped and only membership checked.",
  ["rtree.rs","node.rs","aabb.rs","primitives/geom_with_data.rs"],
  [("derived serialisation","rtree.rs")],
  ["serde impls of RTree and primitives"])
P("C22", "Clones are independent and equal",
  "A cloned tree holds equal elements in the same hierarchy as the original at the time of cloning, and no later change of one, including consuming it, affects the other.",
  ["histories","inputs"],
  "Every reachable tree and every interleaving of later operations on both copies.",
  "No test clones a tree.",
  ["rtree.rs","node.rs"],
  [("derived clone","rtree.rs")],
  ["Clone for RTree"])
P("C23", "Element wrappers are transparent",
  "An element wrapped to carry data, cache its envelope, be stored by reference or be shared has the same envelope, distance, bounded distance and point containment as the bare element. A tree of wrapped elements therefore answers every query like a tree of the bare ones.",
  ["inputs","histories"],
  "Every element shape, every query point and bound, every nesting of wrappers, every history of trees of wrapped elements.",
  "Wrappers are tested on a few line distances with one pair of elements; bounded distance and containment are not tested through wrappers, and the reference and shared-ownership wrappers not at all.",
  ["primitives/geom_with_data.rs","primitives/cached_envelope.rs","primitives/object_ref.rs","primitives/point_with_data.rs","object.rs"],
  [("delegation","primitives/geom_with_data.rs"),("cached envelope","primitives/cached_envelope.rs")],
  ["RTreeObject and PointDistance impls"])
P("C24", "Bounding box operations match their point set meaning",
  "Boxes behave as the closed sets of points between their corners: construction from corners, a centre or points gives the smallest box; merging gives the smallest common box; containment, intersection, emptiness, area, intersection area, centre, closest point and distance are those of the point sets. The min-max distance is the smallest one that is never below the distance to the nearest point of an element which touches all faces of the box.",
  ["inputs"],
  "All boxes and points (degenerate, touching, nested, disjoint, negative coordinates, empty box) in every dimension and coordinate type, as far as the arithmetic is exact.",
  "Only merging with the empty box, emptiness and one floating point regression are tested.",
  ["aabb.rs","envelope.rs"],
  [("component-wise operations","aabb.rs")],
  ["AABB","Envelope for AABB","Rectangle"])
P("C25", "Element distances honour the distance contract",
  "For every provided element type, the distance to a point is the squared Euclidean distance to the closest point of the element, it is zero exactly for covered points, it is never smaller than the distance to the element's envelope, and the bounded distance gives the distance exactly if it does not exceed the bound and nothing otherwise.",
  ["inputs"],
  "All points, rectangles and line segments (floating point for segments; degenerate ones included) and query points in every dimension and coordinate type, as far as the arithmetic is exact.",
  "A dozen hand-picked distances of one segment and one rectangle are tested.",
  ["object.rs","primitives/line.rs","primitives/rectangle.rs","primitives/point_with_data.rs","point.rs"],
  [("projection onto the segment","primitives/line.rs"),("closest point of a rectangle","primitives/rectangle.rs"),("default bounded distance","object.rs")],
  ["PointDistance impls","Line::nearest_point","Line::length_2","Rectangle::nearest_point"])
P("C26", "Point representation does not matter",
  "Arrays, tuples, vector-library points and user-defined points, of any supported dimension and number type, are interchangeable: for the same coordinates every operation gives the same answers, and every coordinate of a point takes part in its own dimension only.",
  ["configurations","inputs","histories"],
  "Every supported point type, dimension (2 to 10) and number type, every history on representable coordinates.",
  "Coordinate access of tuples is tested up to dimension 9; trees are tested with two- to four-dimensional arrays only.",
  ["point.rs","mint.rs"],
  [("coordinate access and generation","point.rs"),("vector-library adapters","mint.rs")],
  ["Point impls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))
