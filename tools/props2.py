prop("C30", "Trajectories never enter an obstacle",
 "Starting outside of all obstacles, following the returned velocity never leads into an obstacle, whatever the dynamics and the obstacle arrangement.",
 ["inputs", "histories"], "all positions, obstacle arrangements, motions",
 "Needs the sign of a dot product for all real inputs; tests sample grids.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py"], [("tangent projection and weighting", "avoidance methods")], ["velocity on the surface"],
 na="Impenetrability is a statement about real-valued runtime quantities (the angle between a velocity and a normal computed by numpy and by two external packages); no static argument over the source can bound them. The structural parts it rests on (weights, frames, guards, completeness) are C06-C09, C15.")
prop("C31", "Avoidance keeps convergence to the attractor",
 "Away from local minima the avoiding trajectory still reaches the attractor of the initial dynamics.",
 ["inputs", "histories"], "all start positions and environments",
 "Asymptotic property of trajectories; tests integrate a few.",
 ["multi_obstacle_avoider.py", "dynamics/"], [("rotation towards the converging direction", "convergence sequence")], ["integrated trajectories"],
 na="Asymptotic statement about a numeric flow; not decidable from source text by dataflow, typestate or lint rules.")
prop("C32", "The velocity field is continuous outside obstacles",
 "Two close positions outside of all obstacles get close velocities.",
 ["inputs"], "all pairs of positions", "Needs limits over reals; tests sample pairs.",
 ["multi_obstacle_avoider.py", "vector_rotation.py"], [("smooth weights", "weight functions")], ["velocities at close positions"],
 na="Continuity of a numeric function over the reals depends on runtime magnitudes (weights reaching zero before a branch switches); no sound static argument in reach.")
prop("C33", "Learned motions reproduce the demonstration",
 "The learned dynamics follows the demonstrated trajectories within the accuracy of the regression.",
 ["inputs"], "all data sets", "Depends on numeric regression of external libraries.",
 ["kmeans_learner/", "gmm_learner/"], [("regression", "sklearn models")], ["predicted velocities"],
 na="Accuracy of a regression carried out by scikit-learn on runtime data; not a property of the source.")

prop("C09", "Degenerate geometry gives a finite answer or a clear error",
 "At degenerate questions (position at the attractor, at a centre or on a reference point, vanishing velocity or direction, parallel or opposite directions, all weights zero, distance value of exactly one, empty selection) no evaluation divides by a vanishing quantity or leaves the domain of a root, logarithm, inverse sine / cosine or fractional power. A norm, weight sum or difference that may vanish is tested, and cosines are clipped, before they are used; the tested case is answered or refused.",
 ["inputs", "configurations"], "every division, root, logarithm, inverse trigonometric function and fractional power of the evaluation code, every path reaching it",
 "The degenerate points form a set of measure zero which random or grid samples never hit; the result is a silent nan that travels on.",
 ["vector_rotation.py", "multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "dynamics/", "multi_hull_and_obstacle.py", "rotation_container.py", "kmeans_learner/"],
 [("norm tested before the division", "if not (norm := LA.norm(..)): return"), ("clipped cosines", "vector_rotation.py: from_directions"), ("weight sums tested", "weight functions")],
 ["finite components of every answer"],
 "path-sensitive interval / non-zero analysis (abstract interpretation over the AST) of every restricted operation",
 "190 of 291 operations are shown safe; the others rest on contracts with the caller, counted per module and kind in sa/preconditions.json (reviewed): one more than reviewed is reported.")

prop("C07", "Frames and kinds of vectors are not mixed up",
 "A position stated in the outer (global) frame is handed to an obstacle or component as a global position (frame flag set, or converted into its local frame first), a local one as a local one. A position is converted as a point and a velocity or direction as a direction, exactly once and with the pose it belongs to. Vectors of two different frames are not added, subtracted, multiplied or handed to one computation. The answer comes back in the frame of the question, for both settings of the frame flag and on every return, and the flag has an effect. Positions of the parts of a multi-body obstacle follow its pose.",
 ["inputs", "configurations"], "all positions, all poses (translated and rotated), both values of in_global_frame / in_obstacle_frame, every return",
 "Tests place objects at the origin without rotation, where all frames coincide.",
 ["multi_obstacle.py", "multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "dynamics/", "multi_hull_and_obstacle.py", "multi_ellipse_obstacle.py", "kmeans_learner/kmeans_obstacle.py", "arch_obstacle.py"],
 [("conversions by the pose", "pose.transform_(position|direction|pose)_(to|from)_relative"), ("frame flags of queries", "in_global_frame / in_obstacle_frame")],
 ["answers at translated and rotated poses, compared between the two frames"],
 "dataflow over frame and kind of every vector, per value of the frame flag, descending into package calls",
 "Scalars and values of unknown origin carry no frame and are not judged.")

prop("C18", "Every argument, setting and computed value takes effect",
 "Every parameter of a function or constructor influences what the function does (its answer, its branches, what it calls, what it stores); every setting stored on an object is read by some code; a function that takes or owns a setting hands it on to the package function it delegates to when that function has the same setting with a default of its own; and no computed value (a rotated vector, a weight, a corrected direction) is dropped: it reaches the answer, a branch, a call or stored state.",
 ["inputs", "configurations"], "all parameters, stored settings, local values and delegating calls of the package, all paths",
 "A setting without effect is invisible at its default value, and a dropped correction is invisible where the correction is zero: tests run with defaults.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "dynamics/", "multi_hull_and_obstacle.py", "vector_rotation.py", "kmeans_learner/", "gmm_obstacle.py"],
 [("constructor settings", "__init__ of avoiders, dynamics, obstacles"), ("settings passed on", "convergence_radius, smooth_continuation_power"), ("local results", "every assignment")],
 ["answers for two values of a setting", "fields of the built object"],
 "def-use dataflow (slice from every definition to answers, branches, calls and stores) with interprocedural setting tracking",
 "An effect means reaching an answer, a branch, a call or a store of the same function; reviewed leftovers are listed as known findings.")

prop("C06", "The shares of a blend sum to one",
 "Whenever directions, velocities or rotations are blended (weighted directional mean, weighted reduction of a rotation tree, convex combination of two parts), the weights used sum to one, or all vanish: they are normalised by the sum of exactly those weights, a remainder given to the base or initial direction is one minus the sum of exactly the weights it completes (and nothing is added afterwards), and a two-part blend uses a and 1 - a of the same a. Functions that give out weights as shares return normalised shares on every path, also for several obstacles at distance one, for a position on two parts at once, and where nothing is active.",
 ["inputs", "configurations"], "all distance values and numbers of obstacles / components / segments / clusters, every path into a blend",
 "A wrong sum only shows where several parts are active at once or at the switch between two formulas; the blend itself only warns.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "nonlinear_rotation_avoider.py", "dynamics/", "multi_hull_and_obstacle.py", "multihull_convergence.py", "kmeans_learner/", "vector_rotation.py"],
 [("normalisation", "weights / np.sum(weights)"), ("remainder", "1 - sum(weights) appended for the base node"), ("blends", "get_directional_weighted_sum, reduce_weighted_to_sequence, get_weighted_mean")],
 ["sum of the weights handed to a blend"],
 "abstract interpretation of weights with value identities, following package calls, at every blend call site",
 "compute_weights of the external avoidance library is taken to give shares; weights that only have to stay below one are not blended directly.")

prop("C16", "A constructed object is complete and its own",
 "After any constructor call that returns, every attribute the methods of the object read is set, whichever optional arguments were given and whichever branch the constructor took; attributes filled later (by fit, set_root or at the start of an evaluation) are set before they are read. Derived classes build their base, class methods that assemble an object give a complete one, and two objects never share a mutable default value (class attribute, dataclass field, parameter default).",
 ["inputs", "configurations", "histories"], "all constructors and class-method constructors, every path, every combination of optional arguments, all methods reading attributes",
 "A missing attribute or shared default shows only for the argument combination that takes the early path, or with a second object; tests build objects one way.",
 ["multi_obstacle_avoider.py", "multi_obstacle.py", "multi_hull_and_obstacle.py", "dynamics/", "kmeans_learner/", "vector_rotation.py", "multi_body_human.py", "gmm_obstacle.py"],
 [("constructors", "every __init__, __post_init__ and class-method constructor"), ("default values", "parameter, class and dataclass defaults")],
 ["attributes of the new object", "independence of two objects"],
 "definite-assignment dataflow of attributes over constructor paths (through helpers, setters and bases) + sharing analysis of defaults",
 "Loops over collections are taken to run; attributes set from outside of the class are not judged.")

prop("C04", "Structures that describe the same elements stay in step",
 "Lists with one entry per element (obstacles, local poses, filters, parents, children, convergence dynamics, graph nodes and the id counter) get the same additions and deletions on every path of every method, also on paths that end in an error, and the index under which an element is registered is the one it is stored at. Parent and child links are written on both sides together (graph elements, index lists, edges and child lists of obstacle trees), a link that is replaced is taken off the old parent, and deleting an element renumbers the indices that point to others. Nodes and weights (or other lists) that a function collects for one call grow together.",
 ["inputs", "histories"], "all methods of the graph handlers, obstacle containers and obstacle trees, all paths, all histories of edits",
 "An entry missing in one list only shows later, at another element, after a particular sequence of edits (re-parenting, deletion, a component without filter).",
 ["graph_handler.py", "multi_obstacle.py", "multi_body_human.py", "multi_ellipse_obstacle.py", "multiboundary_container.py", "rotation_container.py", "arch_obstacle.py", "avoidance/rotational_avoider.py"],
 [("graph handlers", "GraphElement, BasicGraphHandler, GraphHandler"), ("containers", "append, __delitem__, __setitem__, extend_graph"), ("obstacle trees", "set_root, add_component, create_filters")],
 ["length of the lists", "parent of each child and children of each parent"],
 "path-sensitive event dataflow with value numbering over every method (helpers and base methods inlined), compared list by list and link by link",
 "Exceptions raised by foreign code between two additions are not considered.")

prop("C05", "An edit that is rejected leaves everything as it was",
 "When an edit of a structure (adding, inserting, removing or re-parenting elements, obstacles, components or nodes; setting values; fitting) ends in an error - because the id exists already, the direction is zero or not a number, the element, parent or child is unknown, the data are inconsistent, the maximal number is reached, or no intersection is found - neither the object nor its arguments have been changed: checks stand before the first change, what the caller names is looked up before the first change, or the changes made are put back, also in a later round of a loop and in helper functions.",
 ["inputs", "histories"], "all editing methods and setters of the package, every path into an error",
 "A half-done edit shows only when the failing call is caught and the object used again; tests of errors stop at the exception.",
 ["graph_handler.py", "vector_rotation.py", "multi_obstacle.py", "multi_body_human.py", "multi_ellipse_obstacle.py", "multiboundary_container.py", "dynamics/nonlinear_deviation.py", "dynamics/"],
 [("graph handlers", "add_element, delete_element, insert and re-parent operations"), ("trees", "VectorRotationTree.add_node / add_sequence"), ("containers", "append, extend_graph, add_component"), ("learners", "fit")],
 ["state of the object after a caught error"],
 "path-sensitive event dataflow over every edit (helpers inlined): changes before a raise or before a look-up of a caller-named key that can miss",
 "Errors inside of foreign libraries are not considered.")

prop("C17", "Results can be reproduced",
 "The same calls give the same results in every run and in every process: no random numbers, clock, environment, memory address, identity of a value or undefined memory (an array made without values and not completely written) enters a result, and the order in which a set yields its elements never does. Library calls do not change module-level or class-level state or process-wide settings (random seeds, numpy or warning settings, caches). What a rotation tree answers depends on its links and not on the order in which its nodes were added: values handed down the tree are computed parents first, values handed up children first.",
 ["inputs", "schedules", "histories"], "all library functions (drawing functions and the legacy learner package aside), all orders of building a tree, all hash seeds",
 "Memory is usually zero, small sets of small integers usually come sorted and trees are usually built from the root: a single test run cannot show it.",
 ["vector_rotation.py", "graph_handler.py", "multi_obstacle_avoider.py", "avoidance/", "dynamics/", "multi_obstacle.py", "gmm_obstacle.py", "kmeans_learner/"],
 [("tree walks", "get_nodes_ascending, evaluate_all_orientations, update_partial_rotations, evaluate_graph_summing"), ("arrays", "np.zeros / np.empty"), ("module state", "globals, class attributes, caches, numpy settings")],
 ["results of equal calls in two processes or on two equal trees"],
 "queries with resolved calls: sources of nondeterminism, order-sensitive uses of sets, writes to module and class state, definite writing of undefined arrays, direction of tree walks",
 "Learners of external libraries may draw random numbers while fitting (k-means).")

prop("C10", "Parts that play the same role can be exchanged",
 "Obstacles, obstacle trees, dynamics, convergence dynamics, avoiders and rotations that play the same role can be put in place of each other: a method that overrides another one takes every call the original takes; a class that offers most of an interface (HierarchyObstacle, convergence dynamics, directional systems, base avoider) offers all of it; like-named public operations of different classes take the same required arguments in the same order and under the same names, are attributes everywhere or operations everywhere, and their shared options (frame flags, factors, radii) have the same default. An operation and its counterpart (rotate and inverse_rotate, parent and children of a node) take the same arguments.",
 ["configurations"], "all public operations of all classes with the same name or interface, all ways to call them (by position, by name, with options left out)",
 "Each class works in its own tests; the difference shows only when another implementation is plugged in, called by name, or an option is left out.",
 ["hierarchy_obstacle_protocol.py", "multi_obstacle.py", "arch_obstacle.py", "multi_body_human.py", "multi_ellipse_obstacle.py", "nonlinear_rotation_avoider.py", "dynamics/", "vector_rotation.py", "base_avoider.py"],
 [("declared interfaces", "HierarchyObstacle, ObstacleConvergenceDynamics, DirectionalSystem, BaseAvoider"), ("like-named operations", "evaluate, get_gamma, get_normal_direction, get_component, evaluate_convergence_around_obstacle")],
 ["calls by position, by name and with options left out on every implementation"],
 "signature query over all overrides, interface implementers and families of like-named operations, and over the calls on objects of open class",
 "Operations that share a name but not a role are listed in the rule (reviewed); what an exchanged part answers is judged by the other properties.")

prop("C20", "Arrays fit together in every dimension",
 "In two, three or any other dimension and for any number of parts (obstacles, components, weights, rotations, data points), arrays that are combined fit: the axes that meet count the same things (coordinates of the space, or the same parts), reductions run along the axis that exists and is meant to go, an index or selection over the parts never picks coordinates (nor the other way round, nor beyond the end), and columns and rows are not exchanged. Arguments have the shape the called function works on, a value written into an array or attribute has its shape, a result announced as a vector has one entry per coordinate and one announced as a number is a number, and all returns of a function - also the early ones for special cases - give the same shape.",
 ["inputs", "configurations"], "all dimensions, all numbers of parts, every path of every function, symbolically",
 "With two obstacles in the plane (or one of each) a wrong axis, a missing transpose or a wrong index still fits by accident; the early return of a special case is rarely reached.",
 ["vector_rotation.py", "multi_obstacle_avoider.py", "avoidance/", "dynamics/", "multi_hull_and_obstacle.py", "kmeans_learner/", "gmm_obstacle.py", "multivariant_gaussian.py", "nonlinear_rotation_avoider.py"],
 [("vector operations", "rotate_array, get_weighted_mean, create_from_vector_array"), ("blends", "directions with one column per part, weights with one entry per part"), ("answers", "evaluate, get_normal_direction, get_gamma and the like")],
 ["shape of results for several dimensions and numbers of parts"],
 "symbolic shape inference: abstract interpretation with axes 'dimension' and 'number of ..', interprocedural summaries",
 "Shapes that come from external learners and shapely are unknown and not judged.")

prop("C08", "Sizes are applied exactly once",
 "Magnitudes and directions are kept apart. A velocity carries the speed exactly once and a position or distance the length exactly once, on every path of a function; directions, weights, shares, influences, gammas, angles and cosines carry no size at all: scaling every length (or every velocity) by one factor scales positions, distances and radii (or velocities) by that factor and leaves the others as they are. Quantities of different kinds (a length and a ratio, a velocity and a direction) are never added, subtracted or compared; angles are taken from normalised vectors, the plane of a rotation is spanned by unit vectors, and a query for a normal, tangent, reference, convergence or mean direction answers a normalised vector.",
 ["inputs", "configurations"], "all inputs of all functions of the package (drawing functions and the legacy learner package aside), symbolically, every path",
 "Tests work with unit radii, unit speeds and unit vectors, where a forgotten or doubled factor has the value one.",
 ["vector_rotation.py", "multi_obstacle_avoider.py", "avoidance/", "dynamics/", "nonlinear_rotation_avoider.py", "kmeans_learner/", "gmm_obstacle.py", "arch_obstacle.py", "multi_hull_and_obstacle.py"],
 [("velocities", "evaluate, avoid, _limit_magnitude, predict"), ("directions", "get_tangent_direction, get_normal_direction, weighted means"), ("ratios", "gamma, weights, convergence radius")],
 ["how results change when all lengths or speeds are scaled by one factor"],
 "degree inference (dimensional analysis with one base unit and symbolic degrees, one analysis per combination of argument degrees), and a dataflow analysis of unit vectors",
 "Names of parameters and attributes tell the degree; plain literals fit every degree; external learners are not judged.")

prop("C14", "Every part is treated with its own values",
 "Where the package goes through parts (the obstacles, components and nodes of a tree, the clusters, the segments of a path, the data points, the dimensions), each part is treated once, with its own values, and its result has its own place: a round reads the entry that belongs to its part and not the one of a fixed part, of the previous loop's last part or of a shifted place; it stores its result in the place of its part; nothing that belongs to all parts is replaced by the value of the last one or used while it is only half filled; sums start anew for each part they are made for; no part is left out, and a loop that treats all parts does not end at the first one or at one that is skipped.",
 ["inputs", "configurations"], "all loops and comprehensions of the package, for any number of parts",
 "Tests use one obstacle, one component or equal parts, where the first, the last and the own entry are the same.",
 ["vector_rotation.py", "multi_obstacle_avoider.py", "multi_obstacle_container.py", "multi_hull_and_obstacle.py", "avoidance/", "dynamics/", "graph_handler.py", "rotation_container.py", "gmm_obstacle.py", "kmeans_learner/"],
 [("rotation trees", "update_partial_rotations, rotate_weighted, evaluate_graph_summing"), ("containers", "get_gamma, is_collision_free, iteration"), ("avoidance", "loops over trees and components"), ("dynamics", "weights of segments, fitted models per dimension")],
 ["how the result for two different parts differs when they are exchanged or one is added"],
 "round-by-round analysis of loops over the syntax tree: names that vary with the round, reads and stores by index, accumulators, exits, uses after the loop",
 "Loops over sorted or reversed parts and counted searches have a meaningful last round; a wrong but varying index (ii for jj of the same range) is not told apart.")
