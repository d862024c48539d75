#!/usr/bin/env python3
"""Writes /verif/properties.jsonl; the property texts are kept here because
they are easier to edit in this form."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook or "none: link-time seams in the harness"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

I = "include/aleph/"
IO = I + "topology/io/"

prop("R01", "A file means the same however the operating system hands it over",
 "Loading a complex, point cloud, boundary matrix or persistence diagram from a file gives exactly the object the file describes, for every supported format. "
 "The result does not depend on how many bytes each read delivers, where the pieces are cut (inside a number, a line end, a keyword), whether reads are interrupted by signals and retried, or what the heap contained before.",
 ["fault_sequences", "inputs"], "all valid files of every supported format, all splittings of the byte stream into reads, all placements of interrupted reads",
 "The test fixtures are small files on a local disk, which the kernel always delivers in one whole read.",
 [IO + f for f in ("EdgeLists.hh","GML.hh","Pajek.hh","GraphML.hh","LexicographicTriangulation.hh","VTK.hh","PLY.hh","Matrix.hh","AdjacencyMatrix.hh","BipartiteAdjacencyMatrix.hh","SparseAdjacencyMatrix.hh","FlexSpectrum.hh","Function.hh","HDF5.hh","SimplicialComplexReader.hh")] + [I+"containers/PointCloud.hh", I+"persistenceDiagrams/io/Raw.hh", I+"persistenceDiagrams/io/JSON.hh", I+"topology/BoundaryMatrix.hh"],
 [("stream parsing loops", IO), ("two-pass reading with rewind", IO+"Matrix.hh, Function.hh, PointCloud.hh")],
 "the complex / cloud / diagram handed to the caller")

prop("R02", "A failing read is reported instead of passing for the end of the file",
 "If the operating system reports an error while a file is being read or opened, the load call reports a failure to its caller by an exception. "
 "It never returns normally with a shortened or partly invented complex, point cloud, boundary matrix or diagram. "
 "The object the caller passed in for the result keeps its previous value, and a later load of the same file on healthy storage succeeds in full.",
 ["fault_sequences", "inputs"], "all files of every supported format, an I/O error at every byte offset and every pass over the file, transient or persistent, and failing opens",
 "No test can make a local disk fail after the n-th byte, let alone at every offset.",
 P[0]["anchors"]["files"], [("end-of-file detection", IO), ("stream state reset between passes", IO+"Matrix.hh")],
 "exception or normal return of the load call; result object")

prop("R03", "A cut-off or damaged file never passes for a complete one",
 "Formats that declare their size or close their structure (PLY, VTK, Pajek vertex lists, GML, GraphML, JSON, HDF5, lexicographic triangulations, square matrices) reject a file that was cut off before its data are complete. "
 "Line-oriented formats give exactly the object that the remaining text describes. "
 "A cut or a changed byte may make a load fail, but it never crashes, hangs, corrupts memory or leaks it.",
 ["fault_sequences", "inputs", "crash_points"], "all files of every supported format, cut at every byte offset, and files with single damaged bytes",
 "A file torn by a crashing producer can end at any byte; the tests hold a handful of intact files.",
 P[0]["anchors"]["files"], [("completeness checks at the end of parsing", IO)],
 "exception or result of the load call; process health")

prop("R04", "A reader keeps nothing from the files it read before",
 "A reader object that has loaded any sequence of files, including loads that failed half-way, loads the next file exactly as a newly made reader with the same settings would. "
 "Labels, names and attributes that can be asked for after a load describe the last file loaded only.",
 ["histories", "fault_sequences"], "all sequences of loads through one reader object, with intact, torn and failing files in any order",
 "Tests make a new reader per file and never continue after a failed load.",
 P[0]["anchors"]["files"], [("per-file tables held in reader members", IO)],
 "result complex, labels and attributes after each load")

prop("W05", "A written file is complete, or the failure is reported",
 "When storage fails while a complex, diagram, point cloud or function is being written to a file, the write call reports it, or for calls handed an open stream the stream is left in a failed state. "
 "When storage is healthy the written file is complete however the bytes are accepted, and reading it back gives the same object up to the printed precision of its numbers.",
 ["fault_sequences", "inputs"], "all objects a writer accepts, full disk or I/O error at every byte offset, short and interrupted writes",
 "Tests write to memory or a local disk with space left.",
 [IO+f for f in ("GML.hh","LinesAndPoints.hh","TikZ.hh")]+[I+"persistenceDiagrams/io/JSON.hh", I+"persistenceDiagrams/PersistenceDiagram.hh", I+"containers/PointCloud.hh", I+"math/StepFunction.hh"],
 [("file-name overloads of writers", IO+"GML.hh"), ("stream insertion operators", I+"persistenceDiagrams/PersistenceDiagram.hh")],
 "bytes on the simulated disk; exception or stream state")

prop("C06", "A simplicial complex equals its model after any history of operations",
 "After any sequence of insertions, removals, sorts, weight recalculations, lookups and bulk constructions, a simplicial complex holds exactly the simplices and weights that its documented operations imply, every view of it (filtration order, dimension, membership, index) agrees, and removal never leaves a simplex whose face is gone. "
 "An operation that is cut short because memory runs out or a caller-supplied function throws leaves the complex usable, internally consistent and without leaked memory.",
 ["histories", "fault_sequences"], "all operation sequences on small complexes, an allocation failure or throwing callback at every point of every operation",
 "The interesting states are reached by long mixed histories with failures in the middle of an operation.",
 [I+"topology/SimplicialComplex.hh", I+"topology/Simplex.hh", I+"topology/Filter.hh", I+"topology/Skeleton.hh", I+"topology/Intersections.hh"],
 [("coupled orderings of one simplex set", I+"topology/SimplicialComplex.hh"), ("cascading removal", I+"topology/SimplicialComplex.hh")],
 "iteration, find, contains, index, range, dimension")

prop("H07", "Persistence diagrams are right in every environment and for every variant",
 "The persistence pairing and diagrams of a filtered complex are those of its filtration: every reduction algorithm, matrix representation and the dualised computation agree with each other and with a textbook column reduction, essential classes count the Betti numbers, and matrices and pairings answer queries and compare as their entries imply. "
 "Persistent intersection homology, for any nested strata and either kind of perversity, is that of the chains of allowable simplices with allowable boundaries. "
 "This holds whatever the heap contains or where it places objects, when several threads compute on the same complex at once, and for a retry after the computation ran out of memory.",
 ["schedules", "fault_sequences", "inputs"], "all filtered complexes up to a size, all heap states, allocation failures at every point, all interleavings of concurrent computations",
 "Tests compute once, on fresh heaps, on one thread, and never with memory running out.",
 [I+"persistentHomology/Calculation.hh", I+"persistentHomology/algorithms/Standard.hh", I+"persistentHomology/algorithms/Twist.hh", I+"topology/BoundaryMatrix.hh", I+"topology/Conversions.hh", I+"topology/representations/Vector.hh", I+"persistentHomology/PersistencePairing.hh", I+"persistentHomology/PhiPersistence.hh", I+"persistenceDiagrams/Calculation.hh"],
 [("matrix reduction", I+"persistentHomology/algorithms/"), ("complex to boundary matrix conversion", I+"topology/Conversions.hh")],
 "persistence pairing, diagrams, Betti numbers")

prop("Z08", "Zero-dimensional persistence and components are right in every environment",
 "The connected components of a complex, the merge structure and the zero-dimensional persistence diagram and pairing computed from a filtered graph follow the elder rule and agree with the general persistence computation. "
 "The result does not depend on hash-table layout or memory contents, on other threads using the same complex, or on an earlier attempt that ran out of memory.",
 ["schedules", "fault_sequences", "inputs"], "all filtered graphs up to a size, all hash-table layouts, allocation failures at every point, all interleavings of concurrent computations",
 "Union-find and hash tables give one fixed order per platform in tests.",
 [I+"persistentHomology/ConnectedComponents.hh", I+"topology/UnionFind.hh", I+"topology/ConnectedComponents.hh", I+"persistentHomology/ExtendedPersistenceHierarchy.hh"],
 [("union-find with hash table of parents", I+"topology/UnionFind.hh")],
 "diagram, pairing, component labelling")

prop("G09", "Complexes built from points are right in every environment",
 "Nearest-neighbour queries, Vietoris-Rips, Čech, witness and Dowker complexes, beta skeletons and expansions of graphs contain exactly the simplices and weights their definitions imply for the given points, distances and parameters (all but the skeletons and expansions in the order of their weights), and the exact and the library-backed neighbour search agree. "
 "This holds whatever memory contained before, with several threads building from the same points at once, and for a retry after memory ran out.",
 ["schedules", "fault_sequences", "inputs"], "all small point sets and parameters, all heap states, allocation failures at every point, all interleavings of concurrent constructions",
 "Tests use one or two fixed point clouds in which all neighbourhoods have similar sizes.",
 [I+"geometry/RipsExpander.hh", I+"geometry/RipsExpanderTopDown.hh", I+"geometry/RipsSkeleton.hh", I+"geometry/VietorisRipsComplex.hh", I+"geometry/BruteForce.hh", I+"geometry/FLANN.hh", I+"geometry/WitnessComplex.hh", I+"geometry/DowkerComplex.hh", I+"geometry/CechComplex.hh"],
 [("neighbour search", I+"geometry/FLANN.hh"), ("expansion of cliques with weights", I+"geometry/RipsExpander.hh")],
 "simplices and weights of the complex; neighbour lists")

prop("V28", "Cover trees, shortest paths and their matrices hold through any history",
 "After any sequence of insertions a cover tree holds exactly the inserted points, each on one level so that levels, covering distances and separation of siblings are as its definition demands; its validity checks and listings of points and levels say so, also for the empty tree. "
 "All-pairs shortest paths of a graph have the length of the shortest path for every type of weights, and symmetric and sparse matrices hold and copy what was stored and refuse invalid positions. "
 "An operation that is refused or runs out of memory reports it, loses no point and changes no matrix, and any number of threads may query or build at the same time.",
 ["histories", "fault_sequences", "schedules", "inputs"], "all sequences of insertions of few points, all small weighted graphs, all short histories of two matrices, allocation failures at every point, all interleavings of concurrent queries",
 "Tests insert one small set in all orders, and never run out of memory, use an empty tree or a graph of several components with integral weights.",
 [I+"geometry/CoverTree.hh", I+"topology/FloydWarshall.hh", I+"math/SymmetricMatrix.hh", I+"math/SparseMatrix.hh"],
 [("raising the root when a point is too far away", I+"geometry/CoverTree.hh"), ("relaxation of paths", I+"topology/FloydWarshall.hh")],
 "points, levels and validity of the tree; entries of the matrix")

prop("K10", "Combinatorial constructions do not depend on hash order",
 "Maximal cliques, clique graphs, vertex degrees, skeletons, filtered subsets, spines, cones, suspensions, barycentric subdivisions and intersections of complexes are those their definitions imply, including the documented weights: a spine is a closed subcomplex with the same homology and no free face left, a subdivision consists of the chains of faces, and so on. "
 "This holds for every layout of the hash tables used inside, every heap state, concurrent use by several threads, and for a retry after memory ran out.",
 ["schedules", "fault_sequences", "inputs"], "all small complexes, all hash-table layouts and resulting processing orders, allocation failures at every point",
 "The standard library always gives tests the same hash order.",
 [I+"topology/MaximalCliques.hh", I+"topology/CliqueGraph.hh", I+"topology/Spine.hh", I+"topology/BarycentricSubdivision.hh", I+"topology/QuotientSpaces.hh", I+"topology/Skeleton.hh", I+"topology/Filter.hh", I+"topology/Intersections.hh", I+"topology/filtrations/Degree.hh"],
 [("iteration over unordered containers", I+"topology/Spine.hh, MaximalCliques.hh")],
 "resulting complex or clique list")

prop("D11", "Distances between persistence diagrams are right in every environment",
 "The Hausdorff, bottleneck, Wasserstein, nearest-neighbour and summed-minimum distances between two diagrams of finite points equal the optimum over all matchings or neighbours that their definitions imply, are symmetric and vanish for equal diagrams. "
 "The value does not depend on memory contents, on other threads using the same diagrams, on the order of points or on an earlier attempt that ran out of memory.",
 ["schedules", "fault_sequences", "inputs"], "all pairs of small diagrams, all heap states, allocation failures at every point, all interleavings of concurrent computations",
 "Tests compare two fixed diagrams on one thread.",
 [I+"persistenceDiagrams/distances/Bottleneck.hh", I+"persistenceDiagrams/distances/Wasserstein.hh", I+"persistenceDiagrams/distances/Hausdorff.hh", I+"persistenceDiagrams/distances/detail/Munkres.hh", I+"persistenceDiagrams/distances/detail/Matrix.hh"],
 [("assignment solver with manual memory", I+"persistenceDiagrams/distances/detail/")],
 "returned distance")

prop("D12", "Diagram summaries are right in every environment",
 "The indicator function, envelope, norms, entropies and persistence values of a diagram, and the arithmetic, integrals and maxima of step functions and piecewise linear functions, take the values that their definitions imply at every point where they are defined. "
 "The values do not depend on what memory contained before, on where objects lie, on other threads using the same diagram or function, or on an earlier attempt that ran out of memory.",
 ["schedules", "fault_sequences", "inputs"], "all small diagrams and functions, all heap and stack states, allocation failures, all interleavings of concurrent evaluations",
 "A read just past the end of a container gives a harmless value in most runs of a test.",
 [I+"persistenceDiagrams/PersistenceIndicatorFunction.hh", I+"persistenceDiagrams/Envelope.hh", I+"persistenceDiagrams/Norms.hh", I+"persistenceDiagrams/Entropy.hh", I+"persistenceDiagrams/PersistenceDiagram.hh", I+"math/StepFunction.hh", I+"math/PiecewiseLinearFunction.hh"],
 [("event sweep over birth and death values", I+"persistenceDiagrams/PersistenceIndicatorFunction.hh"), ("merging of breakpoints", I+"math/StepFunction.hh")],
 "function values, norms, serialised functions")

prop("S13", "Bootstrap results are valid for every outcome of the random draws",
 "Every bootstrap replicate is computed from exactly as many values as the data hold, drawn from the data only, with every data value reachable. "
 "Confidence intervals are taken from the replicates as their definitions imply, for every outcome of the random draws and every confidence level, and a statistic that throws leaves nothing leaked and the next use unaffected.",
 ["schedules", "fault_sequences", "inputs"], "all outcomes of the random source including extreme ones, all small data sets, a throwing statistic at every call",
 "The generator is seeded from hardware, so tests only sample typical outcomes and can assert little.",
 [I+"math/Bootstrap.hh"], [("resampling", I+"math/Bootstrap.hh"), ("interval index selection", I+"math/Bootstrap.hh")],
 "replicates and interval bounds")

prop("S14", "Random constructions are valid for every outcome of the random draws",
 "Randomly chosen landmarks are distinct valid point indices in the requested number (more than there are points is refused), max-min landmarks are greedily farthest points for the random start that was drawn, and sampled points lie on the sphere or torus asked for. Random graphs are graphs on the requested vertices; unweighted ones are empty for probability 0 and complete for probability 1. "
 "This holds for every outcome of the random source.",
 ["schedules", "inputs"], "all outcomes of the random source including extreme ones, all small parameters",
 "The generators are seeded from hardware; extreme draws never occur in a test run.",
 [I+"geometry/WitnessComplex.hh", I+"geometry/SphereSampling.hh", I+"geometry/TorusSampling.hh", I+"topology/RandomGraph.hh"],
 [("landmark selection", I+"geometry/WitnessComplex.hh"), ("sampling", I+"geometry/SphereSampling.hh")],
 "indices, points and graphs produced")

prop("M15", "The mean of persistence diagrams is right under every parallel schedule",
 "The mean of several diagrams, of any dimension, is computed without data races for every number of worker threads and every interleaving, and does not depend on either. "
 "It terminates for every random starting diagram, returns a diagram of the common dimension whose points are averages of matched points, and the mean of copies of one diagram is that diagram.",
 ["schedules", "inputs"], "all thread counts and interleavings of the parallel loops, all random starts, all small families of diagrams",
 "Races in the parallel loop show up in a tiny share of schedules and the start is seeded from hardware.",
 [I+"persistenceDiagrams/Mean.hh"], [("parallel loops sharing results", I+"persistenceDiagrams/Mean.hh")],
 "returned diagram")

prop("T16", "Reading shared objects from several threads is race-free",
 "Threads may call any read-only operation of the library concurrently on the same complexes, diagrams, point clouds, functions, matrices, meshes and geometric primitives without synchronising. They may also run any operation, including loading and saving files, on distinct objects freely. "
 "There is no data race, and every call returns what it returns on a single thread.",
 ["schedules"], "all interleavings of concurrent read-only calls on shared objects and of arbitrary calls on distinct objects",
 "A race needs a particular interleaving of a few instructions, and the tests are single-threaded.",
 [I+"math/AlgebraicSphere.hh", I+"topology/SimplicialComplex.hh", I+"topology/Simplex.hh", I+"containers/PointCloud.hh", I+"topology/BoundaryMatrix.hh", I+"persistenceDiagrams/PersistenceDiagram.hh", I+"topology/Mesh.hh", I+"math/StepFunction.hh", I+"math/SymmetricMatrix.hh", I+"math/SparseMatrix.hh"],
 [("mutable caches behind const operations", I+"math/AlgebraicSphere.hh"), ("function-local and namespace-level state", I)],
 "return values; race detector")

prop("A17", "Running out of memory is reported and leaves nothing behind",
 "When an allocation fails inside a library call (a computation, query, edit, load or save), the call ends with an exception or copes and gives the full result; it never returns a wrong or partial one and never terminates the program. "
 "Objects passed in as inputs are unchanged, and so is the object a load was meant to fill; nothing is leaked, no file stays open and no memory is corrupted. "
 "Repeating the call with memory available gives the right result; calls declared non-throwing are outside.",
 ["fault_sequences"], "a failing allocation at every point of every operation covered, once or repeatedly",
 "Tests never run out of memory.",
 [I+"persistenceDiagrams/distances/detail/Matrix.hh", I+"topology/io/HDF5.hh", I+"geometry/FLANN.hh", I+"containers/PointCloud.hh", I+"topology/Mesh.hh", I+"geometry/CoverTree.hh", I+"topology/SimplicialComplex.hh", I+"utilities/String.hh", IO+"Function.hh", IO+"GML.hh"],
 [("manually managed memory", I+"persistenceDiagrams/distances/detail/Matrix.hh"), ("exception paths", I), ("string streams that swallow exceptions", I+"utilities/String.hh")],
 "exception type; leak accounting; inputs; result of the retry")

TL = "src/tools/"

prop("P21", "The distance tool prints the right matrix under every schedule or fails",
 "The command-line tool for pairwise distances groups its files (or lists of files) into data sets and prints a symmetric matrix with zero diagonal, whose entries are the p-norms over all dimensions of the chosen diagram distance (Hausdorff, Wasserstein, bottleneck) or the integrals of the p-th powers of differences of indicator or envelope functions, with cleaning, normalisation and kernel options applied. "
 "The matrix is the same for every number of worker threads and every interleaving. "
 "The tool ends with a failure status if a file or list cannot be read in full, memory runs out or the matrix cannot be written in full, and changes no file.",
 ["schedules", "fault_sequences", "inputs"], "all small families of diagram files, all thread counts and interleavings, a failing open, read, write or allocation at every point",
 "No test starts the tool; its parallel loop needs particular schedules and its error paths failing disks.",
 [TL+"topological_distance.cc", I+"persistenceDiagrams/io/Raw.hh"],
 [("parallel loop over pairs", TL+"topological_distance.cc"), ("grouping of files by name", TL+"topological_distance.cc"), ("lists of files", TL+"topological_distance.cc")],
 "standard output and exit status of the tool", "none: the tool is compiled as it is and its entry point renamed in the object file")

prop("P22", "Tools that summarise diagrams and functions print complete results or fail",
 "The command-line tools that turn diagrams or functions into statistics, entropies, signatures, indicator functions, confidence bands and smoothed functions print or write, for each input in order, the values that this input and the options imply, independent of other inputs given in the same call. "
 "They end with a failure status if an input cannot be read in full, memory runs out or output cannot be stored in full, and touch no file but their outputs.",
 ["fault_sequences", "inputs", "histories"], "all small sets of diagram and function files and options, a failing open, read, write, close or allocation at every point, all outcomes of random draws",
 "No test starts the tools.",
 [TL+"persistence_diagram_statistics.cc", TL+"persistence_diagram_entropies.cc", TL+"make_signature.cc", TL+"persistence_indicator_function.cc", TL+"persistence_indicator_function_confidence_sets.cc", TL+"piecewise_linear_function_smoothing.cc", I+"math/StepFunction.hh"],
 [("loops over input files", TL), ("reading of step and piecewise linear functions", TL), ("output streams", TL)],
 "standard output, written files and exit status", "none: the tools are compiled as they are and their entry points renamed in the object files")

prop("P23", "Tools that analyse functions, graphs, matrices write complete results or fail",
 "The command-line tools for one-dimensional functions, graphs, connectivity matrices, Betti numbers, relevant edges and clique communities write, for each input in order, the diagrams, edges or numbers that their definitions imply for this input and the options, independent of other inputs given in the same call. "
 "They end with a failure status if an input cannot be read in full, memory runs out or output cannot be stored in full, and touch no file but their outputs.",
 ["fault_sequences", "inputs", "histories"], "all small sets of input files and options, a failing open, read, write, close or allocation at every point",
 "No test starts the tools.",
 [TL+"function_analysis.cc", TL+"graph_analysis.cc", TL+"connectivity_matrix_analysis.cc", TL+"betti_numbers.cc", TL+"relevant_edges.cc", TL+"clique_persistence_diagram.cc"],
 [("loops over input files", TL), ("filtration set up from options", TL), ("output files", TL)],
 "standard output, written files and exit status", "none: the tools are compiled as they are and their entry points renamed in the object files")

prop("P24", "Tools for point clouds and graph collections write complete results or fail",
 "The command-line tools that describe point clouds (neighbourhood statistics, diagrams of data descriptors), write clique communities of a graph, or turn a collection of graphs into diagrams, graph files and labels, give for each input the values that their definitions and options imply. "
 "They end with a failure status if an input cannot be read in full, memory runs out or output cannot be stored in full, and touch no file but their outputs.",
 ["fault_sequences", "inputs", "configurations"], "all small point clouds, graphs and collections, all hash-table layouts, a failing open, read, write, close or allocation at every point",
 "No test starts the tools.",
 [TL+"rips_distributions.cc", TL+"point_cloud_data_descriptors.cc", TL+"clique_communities_to_json.cc", TL+"sparse_adjacency_matrices.cc"],
 [("filtration set up from options", TL), ("output files", TL), ("order of hash tables", TL+"clique_communities_to_json.cc")],
 "standard output, written files and exit status", "none: the tools are compiled as they are and their entry points renamed in the object files")

EX = "examples/"
prop("P25", "The example programs print complete results or end with a failure",
 "The example programs for point clouds (Vietoris--Rips and witness complexes, eccentricities), networks, meshes, structured grids and images print or write the persistence diagrams of exactly the complex, weights and filtration that their input and options describe; those that make random graphs or diagrams keep to the documented sizes and ranges. "
 "They end with a failure status or exception, not with a plausible result, if an input cannot be read, memory runs out or output cannot be stored in full, and touch no file but their outputs.",
 ["fault_sequences", "inputs", "configurations"], "all small clouds, networks, meshes, grids and images, all option settings, all draws of the random generators, a failing open, read, write, close or allocation at every point",
 "No test starts the examples.",
 [EX+f for f in ("vietoris_rips.cc","vietoris_rips_eccentricity.cc","witness_complex.cc","network_analysis.cc","ply.cc","vtk.cc","image_analysis.cc","create_random_graph.cc","create_persistence_diagrams.cc")],
 [("filtration set up from options", EX), ("printing of diagrams", EX), ("random generators", EX+"create_random_graph.cc, create_persistence_diagrams.cc, witness_complex.cc")],
 "standard output, written files and exit status", "none: the programs are compiled as they are and their entry points renamed in the object files")

prop("P26", "Tools for hierarchies, spectra, spines, patches print full results or fail",
 "The command-line tools for interlevel set persistence hierarchies, spectra, local dimensionality estimates, persistent spines, intersection homology of standard triangulations, glyphs of indicator functions, image patches and ascending and descending filtrations of connectivity matrices print or write, for each input in order, the values that this input and the options imply, independent of other inputs given in the same call. "
 "They end with a failure status if an input cannot be read in full, memory runs out or output cannot be stored in full, and touch no file but their outputs.",
 ["fault_sequences", "inputs", "configurations"], "all small functions, spectra, point clouds, patches and matrices, all option settings, all hash-table layouts, a failing open, read, write, close or allocation at every point",
 "No test starts the tools.",
 [TL+f for f in ("interlevel_set_persistence_hierarchy.cc","spectral_analysis.cc","local_dimensionality.cc","persistent_spines.cc","wicked_triangulations.cc","persistence_indicator_function_glyph.cc","process_image_patches.cc","ephemeral.cc")]+[I+"persistenceDiagrams/PersistenceIndicatorFunction.hh", I+"topology/io/FlexSpectrum.hh"],
 [("loops over input files", TL), ("filtration set up from options", TL), ("output streams", TL)],
 "standard output, written files and exit status", "none: the tools are compiled as they are and their entry points renamed in the object files")

prop("P27", "Tools for strata, intersection homology, heat print full results or fail",
 "The command-line tools for stratified graphs, persistent intersection homology of point clouds and heat diffusion on skeletons print or write, for each input in order, the values that this input and the options imply, independent of other inputs given in the same call. "
 "They end with a failure status if an input cannot be read in full, memory runs out or output cannot be stored in full, and touch no file but their outputs.",
 ["fault_sequences", "inputs", "configurations"], "all small graphs, matrices, point clouds and singularity values, all option settings, all hash-table layouts, a failing open, read, write, close or allocation at every point",
 "No test starts the tools.",
 [TL+f for f in ("stratified_graph_analysis.cc","persistent_intersection_homology.cc","multi_scale_skeleton.cc")]+[I+"persistentHomology/PhiPersistence.hh", I+"topology/io/BipartiteAdjacencyMatrix.hh", I+"geometry/HeatKernel.hh", I+"geometry/BetaSkeleton.hh"],
 [("loops over input files", TL), ("weights set up from options", TL), ("output streams", TL)],
 "standard output, written files and exit status", "none: the tools are compiled as they are and their entry points renamed in the object files")


prop("X18", "A mesh equals its model after any history of edits and faults",
 "After any sequence of vertex and face additions, in any order, that makes up an oriented surface, a half-edge mesh answers every query (vertices, edges between them, faces, links, closed stars, neighbours, data, connected components) as the list of faces implies. An edit that is refused or fails for lack of memory does not damage what was there before. "
 "Destroying the mesh releases all of its memory.",
 ["histories", "fault_sequences"], "all face-by-face build histories of small oriented surfaces, allocation failures at every point",
 "Half-edge links depend on the order of face insertion; tests build two or three fixed meshes.",
 [I+"topology/Mesh.hh"], [("half-edge linking", I+"topology/Mesh.hh")], "query results; leak accounting")

prop("F19", "File-system queries answer for the file asked about or fail cleanly",
 "Asking whether a path exists, is a directory or a regular file gives the answer for that path at that moment, never waiting for a pipe or device: existence is that of the file a link leads to, the kind is that of the path itself. A query the operating system refuses (permission, I/O error, vanished file) gives the documented negative answer rather than a stale or invented one, and keeps no file open. "
 "Base name, stem and extension are taken from the name alone, the temporary directory follows the environment, "
 "and the elapsed-time helper reports the time that passed since it was started, whatever happens to the wall clock.",
 ["fault_sequences", "schedules"], "all paths, all kinds of files, all error results of the underlying system calls, all clock advances and wall-clock changes",
 "Tests query two existing paths on a healthy disk with a real clock.",
 [I+"utilities/Filesystem.hh", I+"utilities/Timer.hh"], [("system call results", I+"utilities/Filesystem.hh")], "returned answers")

prop("E20", "Results do not depend on what the process did before",
 "Calling an operation of the library again with equal arguments gives the equal result. It does not matter what earlier calls (of the same or other operations, successful or failed) did, which values freed or fresh memory holds, where objects are placed, or in which order hash tables hold their entries. "
 "Operations that draw random numbers depend on these numbers only.",
 ["histories", "configurations", "fault_sequences"], "all sequences of earlier calls, with or without failures, all contents and placements of memory, all hash-table layouts",
 "Tests run each operation once in a fresh process whose memory is mostly zero and whose hash tables always have the same layout.",
 [I+"topology/SimplicialComplex.hh", I+"persistentHomology/Calculation.hh", I+"topology/MaximalCliques.hh", I+"persistenceDiagrams/distances/detail/Munkres.hh", I+"math/StepFunction.hh", I+"geometry/RipsExpander.hh", I+"containers/DataDescriptors.hh"],
 [("hash-table iteration", I+"topology/MaximalCliques.hh"), ("uninitialised and leftover memory", I), ("static and member state kept between calls", I)],
 "results of repeated calls")

def na(id, title, statement, why, files, mech):
    prop(id, title, statement, ["inputs"], "all valid inputs", why, files, mech)

na("N30", "Stability theorems hold for computed diagram distances",
 "Perturbing the weights of a filtration by at most epsilon changes the bottleneck distance between the computed diagrams by at most epsilon, and the distances satisfy the triangle inequality.",
 "A theorem about all input pairs; tests evaluate a few.", [I+"persistenceDiagrams/distances/Bottleneck.hh"], [("optimal matching", I+"persistenceDiagrams/distances/")])
na("N31", "Diagram kernels are positive semi-definite",
 "The multi-scale and related kernels between persistence diagrams give positive semi-definite Gram matrices, and the induced pseudo-metric is zero only for equal embeddings.",
 "Quantifies over all finite families of diagrams.", [I+"persistenceDiagrams/kernels/MultiScaleKernel.hh", I+"persistenceDiagrams/kernels/KernelEmbedding.hh"], [("kernel sums", I+"persistenceDiagrams/kernels/")])
na("N32", "Intersection homology does not depend on the chosen stratification",
 "For admissible perversities the intersection homology computed for a pseudomanifold is the same for every valid stratification and subdivision of it.",
 "A topological invariance over all triangulations.", [I+"persistentHomology/PhiPersistence.hh"], [("phi-persistence reordering", I+"persistentHomology/PhiPersistence.hh")])
na("N33", "Numerical estimators are accurate",
 "Compensated summation, principal components, density, curvature, dimensionality and heat-kernel estimates stay within the error bounds of their published algorithms.",
 "Error bounds quantify over all floating-point inputs.", [I+"math/KahanSummation.hh", I+"math/PrincipalComponentAnalysis.hh", I+"containers/DimensionalityEstimators.hh", I+"geometry/HeatKernel.hh", I+"containers/DataDescriptors.hh"], [("floating-point algorithms", I+"math/")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
