#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

PGM = ["lib/pgm_io.cpp", "include/pgm_io.hpp", "lib/image.cpp"]
add("C01", "Reading a plain PGM delivers exactly the image the text encodes",
    "For every well-formed plain PGM text (magic P2, positive width and height, maximum at most 65536, exactly width*height decimal numbers, any whitespace and any '#' comments between tokens and after the last one) reading succeeds and the delivered image has exactly the encoded width, height, maximum and intensities in row-major order. This does not depend on the line structure, on a final newline, or on how large the numbers are.",
    ["inputs"], "every well-formed plain PGM text: every size, maximum, intensity, token layout, comment placement and line ending",
    "The tests read a handful of fixed texts of at most a few pixels; comment/whitespace/EOF combinations, non-square sizes and large values are unbounded.",
    PGM, [("operator>>", "lib/pgm_io.cpp"), ("read_pgm_instruction / check_file_end", "lib/pgm_io.cpp")],
    observe=["sp::image::PGM_IO operator>> and get_image()", "CLI input files"])
add("C02", "Malformed PGM input is refused cleanly",
    "For every text that is not a well-formed plain PGM (wrong magic, missing, non-decimal or negative or too large numbers, zero width or height, maximum above 65536, fewer or more than width*height numbers, redundant trailing data) reading sets the stream's failbit, throws nothing, does not crash or allocate what the header merely claims, and leaves the previously held image (or no image) in place.",
    ["inputs"], "every text outside the plain PGM grammar, including truncations at every token and header sizes whose product overflows",
    "The tests refuse about ten fixed malformed texts; truncation points, token classes and numeric ranges are not enumerable by examples.",
    PGM, [("operator>>", "lib/pgm_io.cpp"), ("check_file_end", "lib/pgm_io.cpp")],
    observe=["stream state after operator>>", "get_image() after a failed read"])
add("C03", "Writing a PGM is faithful, bounded in line length and re-readable",
    "For every valid image the written text is a plain PGM that encodes exactly that image (so reading it back gives an equal image) and no line is longer than 70 characters. For a missing or invalid image (zero size or maximum, an intensity above the maximum, an amount of data other than width*height) and for one whose maximum exceeds the format's 65536 nothing is written.",
    ["inputs"], "every valid image (all sizes, widths far above one line, intensities up to 65536) and every invalid one",
    "The tests write three small images; the line-breaking logic depends on the column modulo 11 and on digit counts, which they do not sweep.",
    PGM, [("operator<<", "lib/pgm_io.cpp"), ("image_valid", "lib/image.cpp"), ("MAX_NUMBERS_PER_ROW", "include/pgm_io.hpp")],
    observe=["sp::image::PGM_IO operator<<", "CLI output file"])
add("C04", "Only well-posed stereo problems can be constructed",
    "A disparity graph can be constructed exactly when both images are valid (every intensity at most the maximum, positive size and maximum, exactly width*height intensities), have the same width, height and maximum, the number of disparity levels is at least 2 and at most the width, and both weights are finite, non-negative and not both zero (a weight below the machine epsilon counts as zero there); otherwise construction throws std::invalid_argument. A constructed graph holds exactly the given images, levels and weights, and a zero reparametrization for every node and neighbor.",
    ["inputs"], "every combination of images, disparity levels and weights",
    "Each test breaks one condition with one value; the accept/reject boundary is a conjunction over many dimensions.",
    ["lib/disparity_graph.cpp", "lib/image.cpp", "include/disparity_graph.hpp"],
    [("DisparityGraph constructor", "lib/disparity_graph.cpp"), ("image_valid", "lib/image.cpp")],
    state=[("reparametrization", "per node and neighbor correction", "include/disparity_graph.hpp")],
    observe=["DisparityGraph constructor and its public fields"])
IDX = ["lib/indexing.cpp", "include/indexing.hpp", "lib/indexing_checks.cpp"]
add("C05", "Addressing never mixes up two pixels, nodes or neighborhoods",
    "For every graph size, the addresses of pixels, of nodes, of pixel-neighbor pairs and of node-neighbor reparametrizations are each pairwise different and inside their storage, every addressing variant gives the same address, and writing through one address changes exactly that item and no other. Neighbor numbering (right, left, down, up) and pixel lookup by number are mutually inverse and opposite for the two pixels of a pair.",
    ["inputs", "configurations"], "every width, height, number of disparity levels, pixel, disparity and neighbor",
    "The tests compare a few addresses on one or two fixed sizes, mostly where width, height and levels coincide, so swapped factors go unnoticed.",
    IDX, [("node_index / reparametrization_index / neighborhood_index / pixel_index", "lib/indexing.cpp"), ("neighbor_by_index / neighbor_index", "lib/indexing.cpp")],
    observe=["sp::indexing functions", "values stored in DisparityGraph, LowestPenalties and ConstraintGraph"])
add("C06", "Existence of nodes, neighborhoods and edges is exactly the geometry",
    "A node exists exactly when its pixel is inside the right image, its disparity is below the number of levels and the matched column (column + disparity) is inside the left image; a neighborhood exists exactly between two pixels of the image that share a side. An edge exists exactly when both its nodes and their neighborhood exist and, in a row, the left node's disparity is at most the right node's disparity plus one; existence does not depend on the direction in which the edge is given.",
    ["inputs", "configurations"], "every graph size, node, pair of pixels (adjacent or not, inside or outside) and pair of disparities",
    "The tests check selected nodes and edges of one 3x2-like graph; border, corner and direction cases grow with the size.",
    ["lib/indexing_checks.cpp", "include/indexing_checks.hpp", "lib/indexing.cpp"],
    [("node_exists / neighborhood_exists / edge_exists", "lib/indexing_checks.cpp")],
    observe=["sp::indexing::checks functions"])
add("C07", "Penalties follow the model and reparametrization preserves the energy",
    "A node's penalty is cleanness times the squared intensity difference of its matched pixels plus the reparametrization of the node towards its four neighbors; an edge's penalty is smoothness times the squared disparity difference minus the reparametrizations of its two nodes towards each other, the same in both directions. Hence for every labeling of all pixels the sum of all node and edge penalties is unchanged by any reparametrization between neighboring pixels.",
    ["inputs"], "all images (intensities up to 65536), weights, reparametrizations, nodes, edges and complete labelings",
    "The tests evaluate a few penalties with constant reparametrizations on one tiny image and no labeling energy at all.",
    ["lib/disparity_graph.cpp", "lib/indexing.cpp"], [("node_penalty / edge_penalty", "lib/disparity_graph.cpp")],
    state=[("reparametrization", "node-neighbor corrections", "include/disparity_graph.hpp")],
    observe=["sp::graph::disparity::node_penalty / edge_penalty"])
add("C08", "Lowest penalties are the exact minima and symmetric",
    "After construction the stored lowest penalty of every pixel equals the smallest penalty among its existing nodes, and that of every neighborhood the smallest penalty among its existing edges, equal in both directions; every variant of the calculation and of the lookup agrees. They are a snapshot (later reparametrization does not change them), and their sum over pixels and undirected neighborhoods never exceeds the energy of any labeling.",
    ["inputs", "histories"], "all images, weights and reparametrizations (negative penalties included), all pixels and neighborhoods",
    "The tests look at one or two pixels and neighborhoods of fixed graphs, never at borders with reparametrization or both directions.",
    ["lib/lowest_penalties.cpp", "include/lowest_penalties.hpp"], [("LowestPenalties constructor, calculate_lowest_*", "lib/lowest_penalties.cpp")],
    state=[("pixels, neighborhoods", "stored minima", "include/lowest_penalties.hpp")],
    observe=["LowestPenalties fields and lookup functions"])
CG = ["lib/constraint_graph.cpp", "include/constraint_graph.hpp"]
add("C09", "A constraint graph admits exactly what lies within the threshold",
    "A newly built constraint graph makes a node available exactly when it exists and its penalty exceeds its pixel's lowest penalty by at most the threshold; an edge is available exactly when it exists, both its nodes are available and its penalty exceeds its neighborhood's lowest penalty by at most the threshold (equality included). Raising the threshold never removes a node or an edge, and making one node available or unavailable affects no other node.",
    ["inputs", "configurations"], "all problems, reparametrizations and thresholds, in particular thresholds equal to a difference",
    "The tests use one or two thresholds on tiny graphs; ties, borders and monotonicity are not sampled.",
    CG, [("ConstraintGraph constructor, is_edge_available, make_node_(un)available", "lib/constraint_graph.cpp")],
    state=[("nodes_availability", "which nodes are still allowed", "include/constraint_graph.hpp")],
    observe=["is_node_available / is_edge_available over all nodes and edges"])
add("C10", "Solving leaves exactly the largest consistent set of nodes",
    "From every availability state, solving terminates and leaves exactly the largest subset of the available nodes in which every node has an available edge to each neighboring pixel, or nothing at all if some pixel would be left without nodes; it reports success exactly when something is left. Solving again changes nothing.",
    ["inputs", "histories"], "all problems, thresholds and availability states (fresh graphs and graphs with arbitrary nodes removed)",
    "The tests solve a few graphs of at most 3x2 pixels where one sweep suffices; a sweep that stops early or a chain of removals needs longer propagation (a defect of exactly this kind was present).",
    CG, [("solve_csp, csp_solution_iteration, csp_process_pixel, should_remove_node", "lib/constraint_graph.cpp")],
    state=[("nodes_availability", "which nodes are still allowed", "include/constraint_graph.hpp")],
    observe=["solve_csp result and availability of all nodes"])
add("C11", "Every partial consistency step is sound and reports progress truthfully",
    "Checking a node, processing one pixel or running one pass over any subset of rows removes only nodes in its scope that lack an available edge towards some neighboring pixel (or all nodes of the graph, once some pixel has none) and never makes a node available. If a step reports a change then nodes were removed, if it reports none then nothing in its scope is left to remove (or nothing is left at all), so no labeling allowed before the step is lost.",
    ["inputs", "histories"], "all problems, availability states, pixels, numbers of jobs and job numbers, in every order of application",
    "The tests call single steps on two or three hand-made states; soundness is a statement about all states and orders.",
    CG, [("should_remove_node, csp_process_pixel, csp_solution_iteration", "lib/constraint_graph.cpp")],
    state=[("nodes_availability", "which nodes are still allowed", "include/constraint_graph.hpp")],
    observe=["return values and availability after each step"])
add("C12", "The result does not depend on threads, jobs or their interleaving",
    "Solving a constraint graph gives the same set of nodes and the same verdict for every number of threads or jobs (also more than rows), for every assignment of rows to them and for every interleaving of their individual reads and writes of shared availability, and it always terminates. Consequently threshold, labeling and disparity map of the multithreaded build equal those of the sequential one.",
    ["schedules", "configurations", "inputs"], "all numbers of threads and all interleavings of their memory accesses, on all problems",
    "The tests are built without threads, and a threaded run samples one schedule of astronomically many.",
    CG, [("solve_csp parallel loop and reduction", "lib/constraint_graph.cpp"), ("csp_solution_iteration row partition", "lib/constraint_graph.cpp")],
    state=[("nodes_availability", "shared by all threads, packed bits", "include/constraint_graph.hpp"), ("changed", "reduction over the jobs", "lib/constraint_graph.cpp")],
    observe=["solve_csp under a controlled scheduler", "OpenMP build of the library and the CLI"],
    )
LF = ["lib/labeling_finder.cpp", "include/labeling_finder.hpp"]
add("C13", "Candidate thresholds are complete, exact, sorted and unique",
    "The list of candidate thresholds contains exactly the differences between the penalty of each existing node and its pixel's lowest penalty and between the penalty of each existing edge and its neighborhood's lowest penalty, strictly increasing and starting with zero. The same holds for the list of one pixel or of one neighborhood.",
    ["inputs"], "all problems, weights and reparametrizations",
    "The tests list candidates for three tiny graphs; border pixels, both directions and ties are not covered.",
    LF, [("fetch_pixel_available_penalties, fetch_edge_available_penalties, fetch_available_penalties", "lib/labeling_finder.cpp")],
    observe=["fetch_*_available_penalties"])
add("C14", "The chosen threshold is the smallest that admits a labeling",
    "For every problem (without reparametrization) the chosen threshold is the smallest value for which some labeling of all pixels exists whose nodes and edges all exist and exceed their lowest penalties by at most that value; the constraint graph built with it is solvable. With any reparametrization it is the smallest candidate whose constraint graph is solvable.",
    ["inputs"], "all images, weights, disparity levels and reparametrizations",
    "The tests find the threshold of three fixed tiny problems; the binary search relies on monotonicity and on the solver for all others.",
    LF + CG, [("calculate_minimal_consistent_threshold", "lib/labeling_finder.cpp"), ("solve_csp", "lib/constraint_graph.cpp")],
    observe=["calculate_minimal_consistent_threshold"])
add("C15", "Choosing the best node keeps exactly the cheapest smallest disparity",
    "Choosing the best node of a pixel leaves available exactly one of its available nodes: the one with the smallest penalty and, among equal ones, the smallest disparity, whatever the signs of the penalties; all other pixels are unaffected. If the pixel has no available node it reports failure and changes nothing.",
    ["inputs", "histories"], "all problems, reparametrizations, availability states and pixels",
    "The tests choose nodes on two fixed graphs with non-negative penalties (a defect with negative penalties was present).",
    LF, [("choose_best_node", "lib/labeling_finder.cpp")],
    observe=["choose_best_node and availability of all nodes"])
add("C16", "Labeling succeeds whenever one exists and is consistent and greedy-best",
    "For every problem without reparametrization and every solvable constraint graph of it, finding a labeling succeeds and leaves exactly one node per pixel, all of them available before, with an available edge between all neighboring pixels. Going column by column from the left and downwards, each pixel has its cheapest (then smallest) disparity that can be completed to such a labeling given the previous ones; if no labeling exists, failure is reported.",
    ["inputs", "histories"], "all problems, thresholds at or above the minimal one and further restricted availability",
    "The tests label three tiny graphs; dead ends of greedy choice only appear on larger ones (a defect of this kind was present).",
    LF + CG, [("find_labeling", "lib/labeling_finder.cpp"), ("choose_best_node", "lib/labeling_finder.cpp"), ("solve_csp", "lib/constraint_graph.cpp")],
    observe=["find_labeling and availability of all nodes"])
add("C17", "The disparity map encodes the labeling and refuses ambiguity",
    "From a graph with exactly one available node in every pixel the disparity map has the size of the images, the number of disparity levels as maximum and at each pixel that node's disparity; it is always a valid image. If some pixel has no available node or more than one, std::logic_error is thrown; the graph is never modified.",
    ["inputs", "histories"], "all graph sizes and availability states",
    "The tests build one map; ambiguous graphs were silently accepted before.",
    LF, [("build_disparity_map", "lib/labeling_finder.cpp")],
    observe=["build_disparity_map"])
add("C18", "The command produces the optimal consistent disparity map",
    "For every pair of valid plain PGM images of the same size and maximum and valid options, the command exits with 0 and writes a plain PGM disparity map of that size whose labels all exist, obey the ordering constraint between horizontal neighbors and whose largest excess of a node or edge penalty over its lowest is the smallest possible; equal images give the zero map. Omitted levels mean the image width and omitted weights mean 1; fractional weights are honoured, and the output is the same for every supported CPU parallelism option and number of threads.",
    ["inputs", "configurations"], "all image pairs and command lines, all thread counts",
    "No test runs the command at all.",
    ["lib/main.cpp", "lib/labeling_finder.cpp", "lib/constraint_graph.cpp", "lib/lowest_penalties.cpp", "lib/disparity_graph.cpp", "lib/pgm_io.cpp"],
    [("main", "lib/main.cpp")], observe=["exit status and output file of stereo_parallel"])
add("C19", "The command fails loudly and leaves no output behind",
    "If an input file is missing or not a plain PGM, the images do not form a well-posed problem, an option is missing, repeated, unknown or not a number of its kind (levels: decimal integer; weights: finite non-negative real), or the output cannot be written, the command prints a diagnostic on the error stream, exits with a non-zero status and does not create or change a result at the output path (only a write that fails midway may leave an incomplete file). Asking for help prints the options and exits with 0; running without parameters prints them too.",
    ["inputs", "configurations", "fault_sequences"], "all command lines and input files that are not a valid request",
    "No test runs the command at all.",
    ["lib/main.cpp", "lib/pgm_io.cpp", "lib/disparity_graph.cpp"], [("main, read_image, parse_weight, parse_disparity_levels", "lib/main.cpp")],
    observe=["exit status, streams and output path of stereo_parallel"])
add("C20", "The OpenCL path finds the same labeling as the CPU path",
    "For every problem whose penalties are exact in single precision, labeling on an OpenCL device gives the same set of nodes as labeling on the CPU, for every size of work groups and every order and interleaving in which the device runs work items and groups, and it terminates; failure is reported in the same cases. No work item touches memory outside of the buffers or waits at a barrier others never reach.",
    ["schedules", "inputs", "configurations"], "all problems, availability states, work-group sizes and orders and interleavings of work items",
    "No test runs the OpenCL path, and there is no device in the build environment.",
    ["lib/solve_csp.cl", "lib/gpu_csp.cpp", "lib/labeling_finder.cpp", "lib/constraint_graph.cpp"],
    [("csp_iteration / choose_best_node_gpu kernels", "lib/solve_csp.cl"), ("csp_solution_cl", "lib/gpu_csp.cpp")],
    observe=["find_labeling_cl against an emulated device"])
add("C21", "Analyses leave the problem unchanged and are repeatable",
    "Building lowest penalties, candidate lists, thresholds, constraint graphs, labelings and maps never changes the images, weights, reparametrization or stored lowest penalties they work on, and work on one constraint graph never affects another one of the same problem. Repeating any of them in any order on the same problem gives the same results.",
    ["histories", "inputs"], "all sequences of library calls on shared problems with several constraint graphs alive",
    "Every test builds its own graph and uses it once.",
    LF + CG + ["lib/lowest_penalties.cpp", "lib/disparity_graph.cpp"],
    [("const access through DisparityGraph*/LowestPenalties*", "include/constraint_graph.hpp"), ("private availability per ConstraintGraph", "include/constraint_graph.hpp")],
    observe=["fields of DisparityGraph and LowestPenalties and all results after each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
