"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
G, M, C, R = "solver/graph.py", "solver/method.py", "solver/geometric/constraint.py", "solver/geometric/relation.py"
K, F, E = "solver/geometric/cluster.py", "solver/geometric/configuration.py", "solver/geometry.py"

p("C01", "A graph is exactly the vertices and edges its edit history built",
  "After any sequence of vertex and edge additions, removals and value changes (one- or two-directional), every query of a directed graph (membership, edge values, vertex and edge lists, ingoing, outgoing and adjacent vertices and edges) agrees with one and the same set of vertices and valued directed edges. Removing a vertex removes every edge at it, adding what exists changes nothing, and edges are always reported as (from, to). A request that names a missing vertex or edge raises and leaves the graph as it was. Lists of edges or neighbours once returned are the caller's: they do not change when the graph is edited, nor the graph when they are.",
  ["histories", "inputs"], "all sequences of public edit operations over small vertex and value alphabets, including self-loops and failing operations",
  "The tests build one fixed graph of four vertices and never remove or re-value anything; the guarantee is over all edit histories.",
  [G], [("paired forward/reverse adjacency maps", "Graph.add_edge, remove_edge, remove_vertex, set"), ("bi-directional helpers", "Graph.add_bi_edge, remove_bi_edge, set_bi_edge")],
  ["Graph.has_*", "Graph.get", "Graph.vertices/edges", "Graph.ingoing_*/outgoing_*/adjacent_*"],
  [{"name": "_forward/_reverse", "meaning": "adjacency in both directions", "where": G}])
p("C02", "Derived graphs are exact, complete and independent",
  "A copy of a graph (by copying it or by constructing a new graph from it) has the same vertices, edges and edge values; a subgraph has exactly the chosen vertices that exist and all edges between them with their values; a reversed graph has the same vertices and each edge turned round with its value. Later edits of the original never show in the derived graph, nor the other way round.",
  ["inputs", "histories"], "all small valued digraphs, all vertex subsets, followed by every single edit of either graph",
  "The tests check edge direction of one reversed graph and that one subgraph has no foreign edges; missing vertices, values, completeness and aliasing are unexamined.",
  [G], [("derivation", "Graph.__init__, subgraph, copy, reverse")], ["Graph.vertices", "Graph.edges", "Graph.get"])
p("C03", "Path search and reachability agree with the edges",
  "A path query returns a list of vertices that starts and ends where asked and follows existing edges if and only if such a path of at least one edge exists, and an empty list otherwise, so that asking for a path from a vertex to itself finds a cycle exactly when there is one. The set of vertices connected to a vertex along ingoing, outgoing or both kinds of edges is exactly the transitive closure without the vertex itself. The connected subsets partition the vertices into the weakly connected components; searching changes nothing, answers once given do not change when the graph is edited, and there is no path to a vertex that is not in the graph.",
  ["inputs", "histories"], "all digraphs up to a size bound, in several edge insertion orders and after removals, and all vertex pairs",
  "No test calls a path or connectivity query directly.",
  [G], [("search with trails", "Graph.path"), ("closure", "Graph.connected, connected_via_outgoing, connected_via_ingoing"), ("components", "Graph.connected_subsets")],
  ["Graph.path", "Graph.connected*", "Graph.connected_subsets"])
p("C04", "Method graph values are never stale after propagation",
  "Whenever a method graph has propagated its changes (at the end of setting a value or adding a method, or on request when that was deferred), every output of every method equals what the method yields for the current values of its inputs, or None if any input is None or the method yields nothing for it, unless the caller has itself overwritten that output since. This holds for every wiring of methods, every order in which methods were added and values were changed, and every grouping of immediate and deferred changes; until propagation is requested, a deferred change alters no variable but the one that was set. A method runs only when all its inputs have values and sees them along with the previous values of its outputs; whatever it does with the map it is given (then or later), with other method graphs, or yields beyond its outputs, does not affect the graph.",
  ["histories", "programs"], "all acyclic wirings up to a size bound x method insertion orders x sequences of immediate/deferred sets, method additions and propagations",
  "The tests set one variable of a two-method chain with immediate propagation; staleness depends on fan-out, diamonds and on the order of pending changes.",
  [M], [("change set and propagation loop", "MethodGraph.propagate, _do_execute, set, add_method, execute")],
  ["MethodGraph.get after set/add_method/execute/propagate"],
  [{"name": "_changed", "meaning": "variables with changes that are still to be propagated", "where": M}])
p("C05", "Only acyclic, singly determined method graphs are admitted",
  "Adding a method is refused if and only if it would close a cycle or determine a variable that another method already determines, with the error that names the reason that applies. A refused method is not listed, never runs afterwards, and changes no value, method or later result of the graph (variables it introduced may stay). Adding a method that is already present (the same or an equal object) changes nothing.",
  ["programs", "histories"], "all sequences of method additions from a complete menu of small methods, interleaved with removals and sets",
  "The tests try one cycle and one double determination and stop there; they look neither at what a refused method leaves behind nor at wrongly refused methods.",
  [M, G], [("validity check with roll back", "MethodGraph.add_method"), ("cycle search", "Graph.path")],
  ["MethodGraph.add_method", "MethodGraph.methods", "MethodGraph.get", "calls of Method.execute"])
p("C06", "Removal from a method graph is complete and harmless",
  "After removing a method, it never runs again and its outputs may be determined by other methods; after removing a variable, the variable and all methods on it are gone; clearing empties the graph. No removal changes the value of a remaining variable or fails on something that is in the graph, and the remaining graph, including anything added later, behaves as if what was removed had never been added.",
  ["histories"], "all sequences of additions, removals, sets and clears up to a depth bound; all removals from all small wirings",
  "No test removes a variable or a method or clears a graph.",
  [M, G], [("removal", "MethodGraph.rem_method, rem_variable, clear"), ("vertex removal", "Graph.remove_vertex")],
  ["MethodGraph.variables/methods/get", "calls of Method.execute"])
p("C07", "Errors neither corrupt a method graph nor lose changes",
  "If a method raises an error during any propagation, the error reaches the caller, the variables and methods of the graph stay the same (only a method that fails while it is being added may stay or go), and once the method works again a further propagation brings every value up to date. Requests about a variable or method that is not in the graph raise an error and leave the graph fully usable and unchanged.",
  ["fault_sequences", "histories"], "every wiring and change history up to a bound x every position at which a method execution fails; every invalid request in every reached state",
  "No test makes a method fail or names something unknown.",
  [M], [("propagation loop", "MethodGraph.propagate, _do_execute, execute, add_method"), ("argument checks", "MethodGraph.set, get, rem_variable, rem_method, execute")],
  ["MethodGraph.get/propagate after an error"])
p("C08", "The supplied methods compute what they say for values of any type",
  "Addition, subtraction, set and assignment methods yield the sum, difference, fixed value and copy of their inputs for every type of value that supports the operation, including zero, empty and vector values, and yield nothing when an input is missing or None; executing a method does not alter its inputs. A multi-valued method yields exactly the values obtained from every combination of the alternatives of its multi-valued inputs, and only methods with exactly one multi-valued output can be created. All of this holds equally when the methods run inside a method graph.",
  ["inputs", "programs"], "all small operand combinations over a typed value alphabet; all multi-methods with up to three multi-valued inputs and small alternative sets",
  "The tests add positive integers and run one sum/product example; subtraction, setting and assigning are never executed.",
  [M], [("built-in methods", "AddMethod, SubMethod, SetMethod, AssignMethod"), ("permutation of alternatives", "MultiMethod.execute, SumProdMethod")],
  ["Method.execute", "MethodGraph.get"])
p("C09", "A constraint graph lists exactly the constraints it holds",
  "After any sequence of adding and removing variables and constraints of any kind, the listed variables, the listed constraints and the constraints reported on one variable, on all of several and on any of several all agree: a constraint is reported for exactly the variables it names. Adding a constraint adds its variables, removing a variable removes every constraint on it from all queries, and removing a constraint keeps its variables. Adding what is present, or removing what is absent, changes nothing. Lists of constraints once returned do not change when the graph is edited, nor the graph when they are.",
  ["histories"], "all reachable states of a small universe of variables and constraints under all operations, with all queries",
  "The tests only add three constraints of one kind and query fixed lists; nothing is ever removed and selection constraints are never put in a graph.",
  [C, G], [("bookkeeping", "ConstraintGraph.add_*/rem_*"), ("queries", "ConstraintGraph.get_constraints_on, _on_all, _on_any"), ("variables of a constraint", "Constraint.variables")],
  ["ConstraintGraph.variables/constraints/get_constraints_on*"])
p("C10", "Selection constraints accept exactly the right solutions",
  "A not-clockwise, not-counter-clockwise, not-obtuse or not-acute constraint on three variables is satisfied by a mapping exactly when the points of those variables, taken in the declared order, do not form a clockwise, counter-clockwise, obtuse or acute triplet; degenerate triplets are accepted (a straight angle counts as obtuse, a zero angle as acute, and an angle whose vertex coincides with an end as neither). A function constraint is satisfied exactly when the function returns True for the values of its variables in the declared order, a sum constraint exactly when its first two values add up to the third. A mapping that lacks one of these variables does not satisfy the constraint (asking may raise an error). Other variables in the mapping do not matter, and checking alters nothing.",
  ["inputs"], "all point triplets of an integer lattice, all assignments of three of several variables, all small argument orders",
  "The tests use two or three hand-picked triplets per constraint with one variable order.",
  [C, E], [("predicates", "FunctionConstraint.satisfied and the Not*Constraint classes"), ("orientation and angle tests", "is_clockwise, is_counterclockwise, is_acute, is_obtuse")],
  ["Constraint.satisfied"])
p("C11", "Cluster intersection is the cluster of the shared constraints",
  "The intersection of two clusters does not depend on their order and is the cluster whose distances and angles are exactly those that both clusters determine; it is absent exactly when they share no distance and no angle. Intersecting a cluster that determines anything with itself gives the same cluster, and intersecting never alters either cluster; the result is a new cluster, and altering it does not alter them. A hedgehog or balloon with fewer than three distinct variables cannot be created.",
  ["inputs"], "all pairs (and triples, for associativity of the meaning) of rigids, balloons and hedgehogs over a small variable set",
  "The tests intersect three fixed clusters and a dozen others; the guarantee is over all pairs of kinds and all overlaps.",
  [K], [("double dispatch", "Cluster.intersection, intersect_rigid/hedgehog/balloon"), ("construction checks", "Hedgehog.__init__, Balloon.__init__")],
  ["Cluster.intersection", "constructors"])
p("C12", "Common constraints of clusters are exactly the shared ones",
  "For any two clusters, the reported common distances, common angles and common constraints are exactly the distances and angles determined by both (all pairs and all angles of a rigid, all angles of a balloon, the angles at the centre of a hedgehog), each listed once. The answer does not depend on the order of the two clusters and asking alters neither of them.",
  ["inputs"], "all pairs of clusters over a small variable set, and families of larger clusters",
  "No test asks for common constraints.",
  [K, R], [("common constraints", "Cluster.common_constraints, common_distances, common_angles*"), ("deduplication by hash and equality", "Distance, Angle")],
  ["Cluster.common_*"])
p("C13", "Constraint counts match the constraints a cluster determines",
  "For every cluster of every kind and size, the number of distances, the number of angles and the total number of constraints it reports equal the number of distances and angles it determines, that is, the number of constraints it has in common with itself.",
  ["inputs"], "all clusters over a small variable set and every size up to a bound",
  "One assertion on one rigid of four points; angles and hedgehogs are never counted.",
  [K], [("counts", "Cluster.n_constraints, n_distances, n_angles")], ["Cluster.n_*"])
p("C14", "Distances and angles have the identity geometry gives them",
  "Two distances are equal exactly when they are between the same two points, in either order; two angles between three distinct points are equal exactly when they have the same vertex point and the same two end points, in either order; a distance never equals an angle. Equal relations always have equal hashes, so sets and dictionaries keep one entry per distinct relation for points named by any hashable value.",
  ["inputs"], "all pairs and triples of relations over small point alphabets of several types, including points with equal hashes",
  "No test compares relations.",
  [R], [("equality and hash", "Distance.__eq__, Angle.__eq__, PointRelation.__hash__")], ["==, hash, set/dict membership"])
p("C15", "Configurations are equal exactly when they are congruent",
  "Two configurations are equal if and only if they have the same variables and one rotation and translation (no reflection or scaling) maps every point of one onto the point of the same variable in the other; this includes configurations in which some points coincide. Equality is reflexive, symmetric and transitive, equal configurations have equal hashes, and comparing with any other kind of object gives unequal rather than an error. The answer does not depend on the names of the variables or the order in which they are stored.",
  ["inputs"], "all pairs of small lattice configurations, all lattice rotations and translations, all iteration orders of the variables",
  "The tests compare four pairs of two-point configurations, all equal; no unequal pair, third point or coincident point is tried.",
  [F, E], [("canonical overlap", "Configuration.__eq__, transformation_matrix"), ("variable-based hash", "Configuration.makehash")], ["==, !=, hash, set membership of Configuration"])
p("C16", "Merging configurations is a rigid overlap with an honest uniqueness flag",
  "Merging keeps every point of the first configuration, adds every other variable of the second at the place one rotation and translation of the whole second configuration gives it, and makes all shared points overlap whenever such a motion exists. The merge is reported and marked underconstrained whenever the shared points do not fix the placement (none shared, or all of them coincide while both configurations have points elsewhere) or either input was already marked, and it is not when two shared variables have distinct points or one of the configurations consists of a single shared point. A mark stays with everything merged from it.",
  ["inputs", "histories"], "all pairs of small lattice configurations with every overlap of variables, all iteration orders, and chains of merges",
  "No test merges anything.",
  [F, E], [("overlap transform", "Configuration.merge, transformation_matrix"), ("coordinate systems", "make_hcs, cs_transform_matrix"), ("flag", "Configuration.underconstrained")],
  ["Configuration.merge", "Configuration.transformation_matrix", "Configuration.underconstrained"])
p("C17", "Configurations behave as immutable values",
  "Copying, adding, selecting, transforming, merging and comparing configurations, and changing the mapping a configuration was made from, never change an existing configuration's variables, points, flag or hash. A copy has the same contents and mark, a selection has exactly the selected variables (selecting one that does not exist is an error), an addition keeps the first configuration's points and adds the missing ones, and a transformation moves every point by the given matrix.",
  ["histories", "inputs"], "all sequences of operations up to a depth bound on a pool of configurations, each checked against a value model, with every earlier object re-observed",
  "No test calls any operation other than equality.",
  [F], [("fresh mappings", "Configuration.__init__, copy, add, select, transform, merge")], ["Configuration.vars/get/mapping/hash"])
p("C18", "Intersections of circles, lines and rays are sound and complete",
  "Intersecting two circles, a circle with a line or a ray, or lines and rays with each other returns exactly the points that lie on both (none, one or two), for every position, direction and order of the arguments: tangent figures give one point (circles that touch only up to rounding may give it twice), parallel lines none, and a ray contains its start and only what lies ahead of it. Circles with a common centre give no points, and no call with proper arguments (positive distance scale, non-zero directions, non-negative radii) raises an error. Arguments are never altered, not even by changing the points returned.",
  ["inputs"], "all combinations of lattice centres, directions and radii within bounds, against exact rational arithmetic",
  "No test intersects anything.",
  [E], [("intersections", "cc_int, cl_int, cr_int, ll_int, lr_int, rr_int")], ["return values of the intersection functions"])
p("C19", "Orientation, angle and distance measures are exact and consistent",
  "Every triplet of points is exactly one of clockwise, counter-clockwise or flat, unchanged by rotating the triplet's order and exchanged by swapping two points. The angle of a triplet is undefined exactly when its vertex coincides with an end; otherwise its size is that of the geometric angle within [0, pi], it is positive for clockwise and negative for counter-clockwise triplets, and acute and obtuse mean a size below or above a right angle (up to the comparison tolerance). Distance is the Euclidean distance, and none of these measures changes under translation or rotation of the points.",
  ["inputs"], "all point triplets of an integer lattice at several scales and offsets, and all symmetries of each",
  "The tests exercise the predicates only through a few hand-picked constraint examples.",
  [E], [("predicates", "is_clockwise, is_counterclockwise, is_flat, is_acute, is_obtuse"), ("measures", "angle_3p, distance_2p")], ["return values"])
p("C20", "Vector and matrix arithmetic is correct and never alters its operands",
  "Vector addition, subtraction, multiplication and division (by vectors, component by component, and by numbers), negation, dot product, length, azimuth, rotation, comparison, indexing and copying, and matrix product, transpose, identity, inverse and linear solution, give the results of the defining formulas. Dividing by zero, combining matrices whose sizes do not fit and inverting a singular matrix are errors. Results are new objects: neither computing them nor changing them afterwards alters any operand. Vectors are equal exactly when both coordinates are, ordered exactly when both coordinates are ordered that way, positive when no coordinate is below zero and negative when both are; rounding, which works in place, rounds every element of the one object it is applied to.",
  ["inputs", "histories"], "all operand combinations over small value alphabets and shapes; short sequences of operations with all operands re-observed",
  "The tests cover a few hand-picked vectors and no matrix operation.",
  [E], [("arithmetic", "Vector.*, Matrix.*")], ["Vector/Matrix operators and methods"])
p("C21", "Coordinate systems and transforms map points as they claim",
  "The coordinate system of two distinct points has its origin at the first and its first axis towards the second, at unit scale or, in the scaled form, at the scale of their distance, with the second axis a quarter turn counter-clockwise; for coinciding points there is none. The transform from one coordinate system to another maps every point to the one with the same coordinates in the other, so transforms compose, transforming back undoes them, and between unit-scale systems distances and orientation are preserved.",
  ["inputs"], "all pairs and triples of coordinate systems over lattice points, applied to lattice points",
  "No test builds a coordinate system.",
  [E], [("coordinate systems", "make_hcs, make_hcs_scaled, cs_transform_matrix"), ("inverse", "Matrix.inverse, solve")], ["make_hcs*, cs_transform_matrix", "Configuration.transform"])
p("C22", "Tolerant comparisons are consistent with each other and with the tolerance",
  "For all finite numbers exactly one of tolerantly less, equal and greater holds, and the or-equal forms are the exact complements of the strict ones; two numbers compare equal exactly when they differ by at most the absolute tolerance plus the relative tolerance times the size of the second number, with the default tolerances the class has at the time or with whatever tolerances the caller passes. Vectors are tolerantly equal exactly when both coordinates are, and their tolerant order follows from that equality and the plain order of both coordinates. Comparing changes no tolerance for later calls. The sign of a number is 1 if it is positive and -1 if it is negative.",
  ["inputs", "histories"], "all pairs over an alphabet of magnitudes around every tolerance boundary x tolerance settings",
  "The tests use tolerant equality only as a tool for values that are practically equal.",
  [E], [("tolerant comparison", "Scalar.tol_*, Vector.tol_*")], ["return values of tol_*"])
p("C23", "Describing objects and debug logging are total and have no effect",
  "Every graph, method, method graph, multi-variable, constraint, constraint graph, relation, cluster, configuration, vector and matrix can be turned into text in every state and for variables named by any hashable value, without an error and without changing the object. Turning debug logging on or off never changes the result of an operation.",
  ["inputs", "histories", "configurations"], "all states reached by short histories x all classes x variable names of several types x logging on/off",
  "No test turns anything into text; logging is only ever on while tests run.",
  [G, M, C, R, K, F, E], [("text forms", "__str__, __repr__ of all classes"), ("debug messages", "logging calls in method, cluster, configuration, geometry")], ["str(), repr()", "results with logging at DEBUG and disabled"])
p("C24", "The text of an object shows what the object consists of",
  "At any time the text of an object shows its current content and nothing else: of a graph every vertex and every edge with its value; of a method its name, its inputs and then its outputs (of a set method the variable and the value, of an assignment both variables); of a method or constraint graph each of its variables and each of its methods or constraints once; of a constraint its name and its variables in order; of a distance or angle its kind and its points in order; of a cluster its kind, its variables (the centre of a hedgehog first) and whether it is overconstrained; of a multi-variable its name; of a vector or configuration the coordinates to three decimals, with the variable each point belongs to; of a matrix its elements row by row. Graphs, methods, constraints and relations of different content have different texts.",
  ["inputs", "histories"], "all small objects of every class over distinctive names, and the texts after every step of short edit histories",
  "No test turns anything into text.",
  [G, M, C, R, K, F, E], [("text forms", "__str__, __repr__ of all classes")], ["str(), repr()"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
