"""Which programs decide which property, and what the evidence says about it."""

GROUPS = {
    'homology': ['ops', 'ops_homology'],
    'components': ['ops', 'ops_components'],
    'combinatorics': ['ops', 'ops_combinatorics'],
    'geometry': ['ops', 'ops_geometry'],
    'distances': ['ops', 'ops_distances'],
    'summaries': ['ops', 'ops_summaries'],
    'mean': ['ops', 'ops_mean'],
    'random': ['ops', 'ops_random'],
    'trees': ['ops', 'ops_trees'],
    'complex': ['hist_complex'],
    'mesh': ['hist_mesh'],
    'selftest': ['selftest'],
    'write': ['ops', 'io_write'],
    'fs': ['fs'],
    'tooldistance': ['tools', 'tools_distance'],
    'tooldiagrams': ['tools', 'tools_diagrams'],
    'toolgraphs': ['tools', 'tools_graphs'],
    'toolclouds': ['tools', 'tools_clouds'],
    'toolexamples': ['tools', 'tools_examples'],
    'toolstructure': ['tools', 'tools_structure'],
    'toolstrata': ['tools', 'tools_strata'],
    'all': ['ops', 'ops_homology', 'ops_components', 'ops_combinatorics', 'ops_geometry', 'ops_distances', 'ops_summaries', 'ops_mean', 'ops_random', 'ops_trees',
            'ops_shared', 'ops_numeric', 'ops_reading', 'io_graphs', 'io_meshes', 'io_matrices', 'io_other', 'io_write', 'hist_complex', 'hist_mesh'],
    'read': ['io_read', 'io_graphs', 'io_meshes', 'io_matrices', 'io_other'],
}

REAL_IO = ['reader classes of the library', 'std::ifstream/std::filebuf of libstdc++', 'tinyxml2, HDF5, RapidJSON parsers', 'std::regex']
STUB_IO = ['file system below /sim (system calls open/read/write/lseek/fstat/..., and stdio for tinyxml2)']
STUB = ['operator new/delete (arena with seeded placement and fill)', 'bucket counts of unordered containers', 'std::random_device', 'steady/system clock']

STUB_THR = ['pthread mutexes/condition variables, OpenMP runtime and thread scheduling (seeded, instruction-level preemption)']

ASSUME = ['g++ 13, libstdc++, x86-64, -O1 with AddressSanitizer: other standard libraries may buffer differently',
          'executions of a run are single-process; the seams cover every source of nondeterminism the library uses (verified by comparing trace hashes of repeated seeds)']

ASSUME_OPS = ['complexes, graphs and point sets of the runs are small (about ten vertices); sizes beyond that are not visited']

OPS = ('Each run draws an operation, its input and the heap state, hash-table layout and stack contents it meets; a share of the runs fails an allocation at a drawn point (once or persistently) and repeats the call, '
       'another share executes the operation on shared inputs from two to four threads under a drawn schedule. Every result is compared with an independent model; races, leaks, memory errors and changed inputs are violations.')

TOOL_RULE = ('Each run draws a command-line tool, input files and options and calls the tool\'s entry point; a share of the runs cuts deliveries into pieces, fails an open, read, write or close at a drawn point, fails an allocation, or leaves out or damages an input. '
             'Output and files are compared with an independent model; exit status, untouched files, open descriptors and memory errors are judged as well.')
TOOL_STUB = ['standard output and error streams', 'exit']


def check(parts, rule, real, stub, level='exploration', note='', assumptions=()):
    return {'parts': parts, 'rule': rule, 'real': real, 'stub': stub, 'level': level, 'note': note,
            'assumptions': ASSUME + list(assumptions)}


def part(group, flavour, quick, thorough):
    return {'group': group, 'flavour': flavour, 'quick': quick, 'thorough': thorough}


CHECKS = {
    'R01': check([part('read', 'asan', 16000, 200000)],
                 'Each run draws a format, a valid file, and for each file how it is delivered (piece sizes 1..n, interrupted calls); the loaded object is compared with a model of the format.',
                 REAL_IO, STUB_IO + STUB, note='Seeded search over formats, files and ways of delivery; no guarantee beyond the runs made.'),
    'R02': check([part('read', 'asan', 16000, 200000)],
                 'Each run draws a format, a valid file and one failing call (kind, offset, pass, transient or not); judged on reporting, unchanged target and a later healthy load.',
                 REAL_IO, STUB_IO + STUB, note='Seeded search over fault positions and kinds; one fault per run plus a recovery load.'),
    'R03': check([part('read', 'asan', 16000, 180000)],
                 'Each run draws a format, a valid file and a cut position or changed bytes; the outcome is compared with what the remaining text describes.',
                 REAL_IO, STUB_IO + STUB, note='Seeded search over cut positions and damaged bytes.'),
    'W05': check([part('write', 'asan', 10000, 120000)],
                 'Each run draws a writer, an object, how the bytes are accepted and at most one failing call (open, write at an offset, close); judged on reporting and on the file left behind.',
                 ['writers of the library', 'std::ofstream/std::filebuf of libstdc++'], STUB_IO + STUB, note='Seeded search over writers, objects and fault positions.'),
    'C06': check([part('complex', 'asan', 20000, 250000)],
                 'Each run draws a history of up to 28 operations on one to three complexes; a share of the operations meets a failing allocation or a caller-supplied comparison, predicate or iterator that throws at a drawn call. All views are compared with a model after every operation.',
                 ['simplices, simplicial complex and filtration orders of the library', 'Boost.MultiIndex'], STUB,
                 note='Seeded search over histories and fault positions.', assumptions=ASSUME_OPS),
    'X18': check([part('mesh', 'asan', 16000, 200000)],
                 'Each run draws a surface, the order, rotation and numbering in which its vertices and faces are added, refused edits (unknown or repeated vertices), copies and moves; a share of the edits and queries meets a failing allocation and is repeated. All queries are compared with the list of faces.',
                 ['half-edge mesh of the library'], STUB,
                 note='Seeded search over build histories of small surfaces and fault positions.', assumptions=ASSUME_OPS),
    'R04': check([part('read', 'asan', 14000, 160000)],
                 'Each run draws a history of one to three earlier loads of one reader object (complete, cut or failing) followed by a judged load.',
                 REAL_IO, STUB_IO + STUB, note='Seeded search over load histories.'),
    'H07': check([part('homology', 'asan', 12000, 160000), part('homology', 'thr', 12000, 160000)],
                 OPS, ['persistence calculation, boundary matrices, representations and conversions of the library'], STUB + STUB_THR,
                 note='Seeded search over filtrations, variants, environments, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'Z08': check([part('components', 'asan', 12000, 160000), part('components', 'thr', 14000, 180000)],
                 OPS, ['union-find, connected components and zero-dimensional persistence of the library'], STUB + STUB_THR,
                 note='Seeded search over filtered graphs, environments, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'G09': check([part('geometry', 'asan', 12000, 160000), part('geometry', 'thr', 12000, 160000)],
                 OPS, ['neighbour search, Rips, Čech, witness, Dowker and beta-skeleton constructions of the library', 'FLANN, Miniball'], STUB + STUB_THR,
                 note='Seeded search over point sets, parameters, environments, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'V28': check([part('trees', 'asan', 16000, 200000), part('trees', 'thr', 10000, 120000)],
                 OPS, ['cover trees of the library'], STUB + STUB_THR,
                 note='Seeded search over sequences of insertions, failing allocations, environments and interleavings of queries.',
                 assumptions=['distances of the runs are exact multiples of 1/2; trees have at most thirty points']),
    'K10': check([part('combinatorics', 'asan', 14000, 180000), part('combinatorics', 'thr', 14000, 180000)],
                 OPS, ['clique enumeration, clique graphs, spines, cones, subdivisions and intersections of the library'], STUB + STUB_THR,
                 note='Seeded search over complexes, hash-table layouts, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'D11': check([part('distances', 'asan', 20000, 250000), part('distances', 'thr', 16000, 200000)],
                 OPS, ['bottleneck, Wasserstein, Hausdorff and neighbour distances and the assignment solver of the library', 'Boost graph matching'], STUB + STUB_THR,
                 note='Seeded search over pairs of small diagrams, memory contents, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'D12': check([part('summaries', 'asan', 25000, 300000), part('summaries', 'thr', 25000, 300000)],
                 OPS, ['indicator function, envelope, norms, entropies, step and piecewise linear functions of the library'], STUB + STUB_THR,
                 note='Seeded search over small diagrams and functions, memory contents, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'M15': check([part('mean', 'asan', 8000, 100000), part('mean', 'thr', 5000, 60000)],
                 OPS, ['mean of persistence diagrams, assignment solver of the library'], STUB + STUB_THR + ['engines seeded by std::random_device'],
                 note='Seeded search over families of diagrams, random starts, thread counts 1..6 and interleavings.', assumptions=ASSUME_OPS),
    'S13': check([part('random', 'asan', 25000, 300000), part('random', 'thr', 20000, 250000)],
                 OPS + ' Every draw of a random engine is a decision of the simulation, with styles that favour extreme and repeated values.',
                 ['bootstrap of the library', 'distributions of libstdc++'], STUB + STUB_THR + ['random engines'],
                 note='Seeded search over data, random outcomes, throwing statistics, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'S14': check([part('random', 'asan', 25000, 300000), part('random', 'thr', 20000, 250000)],
                 OPS + ' Every draw of a random engine is a decision of the simulation, with styles that favour extreme and repeated values.',
                 ['landmark selection, sphere and torus sampling, random graphs of the library', 'distributions of libstdc++'], STUB + STUB_THR + ['random engines'],
                 note='Seeded search over parameters, random outcomes, failing allocations and interleavings.', assumptions=ASSUME_OPS),
    'T16': check([part('all', 'thr', 40000, 500000)],
                 'Each run draws one to three objects and lets two to four threads ask them (and load, write and compute from them) under a drawn schedule with preemptions between single memory accesses. Answers are compared with those recorded before the threads started or with a model; a happens-before detector watches every access.',
                 ['read-only operations of complexes, matrices, meshes, diagrams, clouds, functions, spheres; all algorithms, readers and writers of the other checks', 'libstdc++, Eigen, FLANN, Boost'], STUB + STUB_THR + STUB_IO,
                 note='Seeded search over objects, questions and interleavings.', assumptions=ASSUME_OPS + ['accesses inside shared libraries (HDF5, tinyxml2) are not instrumented; HDF5 is left out of concurrent runs, as its library is not thread-safe']),
    'A17': check([part('all', 'asan', 40000, 500000)],
                 'Each run draws an operation (algorithm, query, load, save, or a history of edits of a complex or mesh), counts its allocations, lets one to three of them fail (once or from then on) and repeats the call. Judged on the report, the unchanged inputs and targets, blocks and descriptors left behind and the result of the repetition.',
                 ['all algorithms, containers, readers and writers of the other checks'], STUB + STUB_IO,
                 note='Seeded search over operations, inputs and positions of failing allocations.', assumptions=ASSUME_OPS + ['allocations inside tinyxml2 and HDF5 do not fail: these libraries terminate or leak by themselves']),
    'E20': check([part('all', 'asan', 40000, 500000)],
                 'Each run draws one to three operations with inputs and executes a sequence of calls, some of which run out of memory, while memory contents, placement, hash-table layout, stack contents and random devices change. Every result is compared with a model or with the result recorded before.',
                 ['all algorithms, queries, readers and writers of the other checks'], STUB + STUB_IO,
                 note='Seeded search over sequences of calls and environments.', assumptions=ASSUME_OPS),
    'F19': check([part('fs', 'asan', 16000, 200000), part('fs', 'thr', 12000, 150000)],
                 'Each run draws a tree of files (regular, directories, links, pipes, devices), refused system calls and clock changes, and asks about names and times; answers are compared with the tree and the simulated clock.',
                 ['file-system and timer utilities of the library'], STUB + STUB_THR + STUB_IO + ['stat family, readdir, environment'],
                 note='Seeded search over trees, errors and clock histories.'),
    'P21': check([part('tooldistance', 'asan', 24000, 250000), part('tooldistance', 'thr', 12000, 140000)],
                 TOOL_RULE + ' In a further part the parallel loop runs on one to six simulated workers under a drawn schedule.',
                 ['topological_distance with everything it calls'], STUB + STUB_THR + STUB_IO + TOOL_STUB,
                 note='Seeded search over families of diagrams, options, faults and interleavings.', assumptions=ASSUME_OPS),
    'P22': check([part('tooldiagrams', 'asan', 40000, 450000)],
                 TOOL_RULE, ['persistence_diagram_statistics, persistence_diagram_entropies, make_signature, persistence_indicator_function, persistence_indicator_function_confidence_sets, piecewise_linear_function_smoothing with everything they call'],
                 STUB + STUB_IO + TOOL_STUB, note='Seeded search over input files, options and faults.', assumptions=ASSUME_OPS),
    'P23': check([part('toolgraphs', 'asan', 20000, 240000)],
                 TOOL_RULE, ['function_analysis, graph_analysis, connectivity_matrix_analysis, betti_numbers, relevant_edges, clique_persistence_diagram with everything they call'],
                 STUB + STUB_IO + TOOL_STUB, note='Seeded search over input files, options and faults.', assumptions=ASSUME_OPS),
    'P24': check([part('toolclouds', 'asan', 30000, 350000)],
                 TOOL_RULE, ['rips_distributions, point_cloud_data_descriptors, clique_communities_to_json, sparse_adjacency_matrices with everything they call'],
                 STUB + STUB_IO + TOOL_STUB, note='Seeded search over input files, options and faults.', assumptions=ASSUME_OPS),
    'P25': check([part('toolexamples', 'asan', 30000, 350000)],
                 TOOL_RULE, ['vietoris_rips, vietoris_rips_eccentricity, witness_complex, network_analysis, ply, vtk, image_analysis, create_random_graph, create_persistence_diagrams with everything they call'],
                 STUB + STUB_IO + TOOL_STUB, note='Seeded search over input files, options and faults.', assumptions=ASSUME_OPS),
    'P26': check([part('toolstructure', 'asan', 24000, 280000)],
                 TOOL_RULE, ['interlevel_set_persistence_hierarchy, spectral_analysis, local_dimensionality, persistent_spines, wicked_triangulations, persistence_indicator_function_glyph, process_image_patches, ephemeral with everything they call'],
                 STUB + STUB_IO + TOOL_STUB, note='Seeded search over input files, options and faults.', assumptions=ASSUME_OPS),
    'P27': check([part('toolstrata', 'asan', 24000, 280000)],
                 TOOL_RULE, ['stratified_graph_analysis, multi_scale_skeleton, persistent_intersection_homology with everything they call'],
                 STUB + STUB_IO + TOOL_STUB, note='Seeded search over input files, options and faults.', assumptions=ASSUME_OPS),
}

# Command-line tools and example programs of the repository linked into a group.
TOOLS = {
    'tooldistance': ('src/tools', ['topological_distance']),
    'tooldiagrams': ('src/tools', ['make_signature', 'persistence_diagram_entropies', 'persistence_diagram_statistics',
                                   'persistence_indicator_function', 'persistence_indicator_function_confidence_sets',
                                   'piecewise_linear_function_smoothing']),
    'toolgraphs': ('src/tools', ['betti_numbers', 'clique_persistence_diagram', 'connectivity_matrix_analysis', 'function_analysis',
                                 'graph_analysis', 'relevant_edges']),
    'toolclouds': ('src/tools', ['clique_communities_to_json', 'point_cloud_data_descriptors', 'rips_distributions',
                                 'sparse_adjacency_matrices']),
    'toolstructure': ('src/tools', ['ephemeral', 'interlevel_set_persistence_hierarchy', 'local_dimensionality',
                                    'persistence_indicator_function_glyph', 'persistent_spines', 'process_image_patches',
                                    'spectral_analysis', 'wicked_triangulations']),
    'toolstrata': ('src/tools', ['multi_scale_skeleton', 'persistent_intersection_homology', 'stratified_graph_analysis']),
    'toolexamples': ('examples', ['create_persistence_diagrams', 'create_random_graph', 'image_analysis', 'network_analysis', 'ply',
                                  'vietoris_rips', 'vietoris_rips_eccentricity', 'vtk', 'witness_complex']),
}
