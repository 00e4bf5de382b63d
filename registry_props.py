from registry import prop

prop('C01', 'Interval sets are exactly the union of their ranges',
     'An interval set built from any list of half-open integer ranges contains exactly the integers '
     'covered by at least one range, its length is the number of integers covered (overlaps and '
     'empty ranges counted once or not at all), and two sets are equal exactly if they cover the '
     'same integers. Combining two sets gives the union of both and leaves both operands unchanged.',
     ['inputs', 'histories'], 'every number, order, nesting and overlap of ranges, every probe value, every sequence of unions',
     'tests/test_intervals.py tries a handful of ranges; overlap merging depends on the order and nesting of all of them',
     ['kerncraft/intervals.py'],
     [('overlap merging', 'kerncraft/intervals.py Intervals._enforce_no_overlap'), ('ordering', 'kerncraft/intervals.py Intervals._enforce_order')],
     observe=['Intervals(...), len(), in, ==, &'],
     note='Bounds: up to 3 (thorough 4) ranges with unbounded integer limits.')

prop('C03', 'Global iteration numbers enumerate the loop nest in execution order',
     'For every loop nest, all loop bounds and all (positive) increments, global iteration g in '
     '[0, total) corresponds to exactly the loop indices the C loop nest has in its g-th execution of '
     'the body, and the translation from indices back to the iteration number is its inverse. The '
     'total number of iterations, the trip count of every single loop and the number of the last '
     'iteration are exact, also if the increment does not divide the range.',
     ['inputs', 'programs'], 'every loop nest shape, every size bound to its constants, every iteration of the nest',
     'tests look at a few iterations of two kernels with unit increments and one size',
     ['kerncraft/kernel.py', 'kerncraft/symbolic/utils.py'],
     [('translation', 'kerncraft/kernel.py Kernel.global_iterator_to_indices, indices_to_global_iterator, global_iterator'),
      ('trip counts', 'kerncraft/kernel.py Kernel.iteration_length, max_global_iteration; kerncraft/symbolic/utils.py int_ceil, int_floor')],
     observe=['global_iterator_to_indices(git), indices_to_global_iterator(indices), iteration_length(), max_global_iteration()'],
     note='Bounds: nests of depth 1-4; sizes symbolic up to 10^6 (1D), 10^4 (2D), 5-10 (3D/4D), plus fixed inner trip counts up to 1000; iteration number unbounded within the nest.')

prop('C02', 'Quantities with SI prefixes keep their magnitude and unit',
     'A quantity (number, SI prefix k..Y, unit) stands for number times the power of ten of its '
     'prefix. Reading one from text, changing its prefix, reducing it, adding, subtracting, '
     'multiplying, dividing and comparing never change that magnitude beyond rounding; the unit of a '
     'sum is the common unit (different units are refused), of a product both units concatenated, of '
     'a quotient a/b, and a plain number leaves it alone, dimensionless and infinite quantities '
     'included. The printed number and prefix are the value up to the 1 % good_prefix promises.',
     ['inputs'], 'every value, prefix, unit used by kerncraft, and every pair of operands',
     'there are no tests of the arithmetic; tests only read units of the shipped machine files',
     ['kerncraft/prefixedunit.py'],
     [('prefix table', 'kerncraft/prefixedunit.py PrefixedUnit.PREFIXES'),
      ('parsing', 'kerncraft/prefixedunit.py PrefixedUnit.__init__'),
      ('normalisation', 'kerncraft/prefixedunit.py PrefixedUnit.with_prefix, reduced, good_prefix, __str__'),
      ('arithmetic', 'kerncraft/prefixedunit.py PrefixedUnit.__add__, __sub__, __mul__, __truediv__, comparisons')],
     observe=['PrefixedUnit(...), float(), str(), arithmetic and comparison operators'],
     note='Bounds: values in [0,1000] times any prefix, text with up to 3+2 digits (thorough 5+3).')

prop('C04', 'The address trace contains exactly the accesses of the program',
     'For every kernel, all sizes and every global iteration, compile_global_offsets returns exactly '
     'one load address per distinct array element read and one store address per distinct reference '
     'written in that iteration (references that never move left out): array base plus element size '
     'times the row-major index of the reference at the loop indices of that iteration. Arrays are '
     'laid out in alphabetical order without overlap, spacing bytes apart and each starting at a '
     'cacheline boundary; array_sizes reports their true sizes. Iterations beyond the last one are '
     'refused, and a single number, a list and a range of iterations give the same addresses.',
     ['inputs', 'programs'], 'all sizes, all iterations, all spacings, kernel shapes of 1-3 dimensions, float/double/complex',
     'tests compare a few iterations of small kernels at one size; the trace feeds the cache simulator for every size',
     ['kerncraft/kernel.py'],
     [('trace', 'kerncraft/kernel.py Kernel.compile_global_offsets'),
      ('flattening', 'kerncraft/kernel.py Kernel.access_to_sympy'),
      ('sizes', 'kerncraft/kernel.py Kernel.array_sizes, datatypes_size')],
     observe=['compile_global_offsets(iteration, spacing)', 'array_sizes(in_bytes, subs_consts)'],
     note='Bounds: 12 kernel shapes; sizes symbolic up to 10^6 (1D), 10^4 (2D), 500 (3D); iteration number unbounded within the nest.')

prop('C05', 'The kernel model read from source code is what the code does',
     'For every accepted kernel program the extracted model equals the meaning of the code: every '
     'array dimension, loop start, stop, step and order, every subscript of every array read or '
     'written (also by compound assignment), every scalar, the element type and the number of '
     'arithmetic operations of each kind, for arbitrary subscript, bound and right-hand-side '
     'expressions. A YAML kernel description gives the same model as the code it describes. Programs '
     'outside the supported form (other comparisons, steps, statements, subscripts, types or '
     'structure) are refused and never misread.',
     ['programs', 'inputs'], 'every kernel built from the supported grammar up to a size, all literal values',
     'tests parse a few fixed kernels; the meaning depends on expression shape, nesting and literals',
     ['kerncraft/kernel.py'],
     [('parsing', 'kerncraft/kernel.py KernelCode._process_code, _p_for, _p_assignment, _p_sources'),
      ('expressions', 'kerncraft/kernel.py KernelCode.conv_ast_to_sym, _get_offsets'),
      ('description', 'kerncraft/kernel.py KernelDescription.__init__, string_to_sympy')],
     observe=['KernelCode(...).sources, destinations, variables, get_loop_stack(), _flops, get_index_type()'],
     note='Bounds: expression trees of depth 1-2, up to 3 loops and 3 dimensions, 1-2 statements, literals up to 999 symbolic in the syntax tree (after the pycparser parse, which is trusted); program shapes enumerated by path exploration; 35 refused forms.')

prop('C06', 'Generated kernel and benchmark code does exactly what the kernel does',
     'The C code generated from any kernel (kernel function, header, benchmark main) has the meaning '
     'of the kernel: same loops (start, bound, step, order) and statements, every multi-dimensional '
     'reference is the row-major 1-D element of it, scalars stay scalars, the header declares what '
     'is defined. With OpenMP the nest is shared between threads exactly once, without it never; '
     'other pragmas stay. main reads every constant from its own argument in order, allocates the '
     'declared number of elements, initialises what the kernel accesses and passes every parameter '
     'of the kernel function its argument.',
     ['programs', 'inputs'], 'every kernel of the supported grammar, all literals in it, with and without OpenMP',
     'tests compile code of a few kernels at best; a wrong flattening of one reference is not noticed by any',
     ['kerncraft/kernel.py'],
     [('kernel function', 'kerncraft/kernel.py KernelCode._build_kernel_function_declaration, get_kernel_code, get_kernel_loop_nest'),
      ('flattening', 'kerncraft/kernel.py transform_multidim_to_1d_ref, transform_multidim_to_1d_decl'),
      ('benchmark', 'kerncraft/kernel.py KernelCode.get_main_code, _build_array_declarations, _build_array_initializations')],
     observe=['get_kernel_code(), get_kernel_header(), get_main_code()'],
     note='Bounds: 8 program shapes of 1-4 dimensions, symbolic literals in bounds, dimensions and subscripts; index values symbolic.')

prop('C07', 'Layer conditions predict hits, misses and evicts by their definition',
     'For every kernel layer conditions apply to, all array sizes and every cache size, the '
     'predicted hits, misses and evicts of each level are those of the definition: the reuse '
     'distances of all array accesses in bytes (infinite for the leading access of each array), the '
     'largest distance t such that all shorter distances plus t for each longer one fit into the '
     'cache decides; distances up to t hit, the others miss, every written reference is evicted '
     'once; a cache larger than all arrays has only hits. The symbolic conditions select the same '
     'result. Kernels with other strides, steps or index orders are refused.',
     ['inputs', 'programs'], 'all array sizes, cache sizes from tiny to huge, stencils in 1-3 dimensions',
     'tests compare two stored results; where the condition flips depends on every size',
     ['kerncraft/cacheprediction.py', 'kerncraft/kernel.py'],
     [('conditions', 'kerncraft/cacheprediction.py LayerConditionPredictor.build_symbolic_LCs, canonical_relational, sympy_expr_abs_distance_key, split_sympy_access_in_dim_offset'),
      ('evaluation', 'kerncraft/cacheprediction.py LayerConditionPredictor.desymbolize, get_hits, get_misses, get_evicts, get_loads, get_stores')],
     observe=['LayerConditionPredictor(kernel, machine, cores, symbolic)'],
     note='Bounds: 14 kernels, sizes symbolic from 41 (so distances have the order of their degree) up to 10^7 (1D), 10^5 (2D), 2000 (3D), 4 sets of cache sizes.')

prop('C08', 'Cache simulation runs a valid warm-up and measures whole cachelines',
     'For every loop size and every moment the caches become full, the simulation is fed consecutive, '
     'existing, non-empty ranges of iterations from the first one on (restarting only after a '
     'complete sweep), with the element size as access width; statistics are reset exactly once, '
     'directly before the benchmark, which begins where the warm-up ended, is at most 100000 '
     'iterations long and begins and ends at cacheline boundaries of the written (or else read) data. '
     'All results are the counts of the simulator divided by the number of cachelines processed.',
     ['inputs', 'histories'], 'all sizes up to millions of iterations, every number of warm-up runs until the caches are full',
     'tests simulate a few sizes; exact multiples of the warm-up increment or the limit of runs are not among them',
     ['kerncraft/cacheprediction.py', 'kerncraft/kernel.py'],
     [('phases', 'kerncraft/cacheprediction.py CacheSimulationPredictor.simulate'),
      ('alignment', 'kerncraft/cacheprediction.py CacheSimulationPredictor._align_iteration_with_cl_boundary'),
      ('results', 'kerncraft/cacheprediction.py CacheSimulationPredictor.get_loads, get_hits, get_misses, get_stores, get_evicts, get_infos')],
     observe=['ranges given to csim.loadstore, csim.reset_stats', 'get_loads(), get_hits(), get_misses(), get_stores(), get_evicts(), get_infos()'],
     note='Bounds: 8 kernels, at least 100 iterations, 1D sizes up to 12 warm-up increments and between 99 increments and 10^7, 2D with rows of 10 and 57 elements; the simulator is a stand-in; alignment is asserted where the handover stays within one row.')

prop('C09', 'The cache simulator stands for the machine file and the cores asked for',
     'For every machine description and every history of requests for different numbers of cores, '
     'the simulator handed out has exactly the cache levels of the machine file with their ways, '
     'cacheline size, policies and links; the sets of caches shared between cores are divided by the '
     'number of cores (at most those of a NUMA domain), private ones are complete; it is empty with '
     'zeroed statistics, and neither the machine description nor other machines are affected.',
     ['inputs', 'histories'], 'every machine description, every sequence of requests',
     'tests ask each machine once for the default; asking for another number of cores afterwards is not tested',
     ['kerncraft/machinemodel.py'],
     [('simulator', 'kerncraft/machinemodel.py MachineModel.get_cachesim')],
     observe=['dictionary given to cachesim.CacheSimulator.from_dict, calls on the simulator returned'],
     note='Bounds: up to 3 caches, 3 requests, 2 machines (thorough 5 requests, 3 machines); cachesim is a stand-in.')

prop('C10', 'Measured bandwidths are those of the best fitting benchmark',
     'For every set of benchmark kernels and measurements and every number of read and write streams, '
     'the bandwidth used is that of the kernel whose ratio of reads (write-allocates included) to '
     'writes is closest (one without writes if there are none), measured at the memory level and '
     'threads per core asked for: with the given number of cores, or else the maximum over as many '
     'cores as share the level within a NUMA domain. It is corrected by the bytes of write-allocate '
     'transfers of writes that are not also read, except at the first level.',
     ['inputs'], 'every list of kernels, streams, bytes, measurements, all read and write ratios',
     'tests look up three ratios in one machine file',
     ['kerncraft/machinemodel.py'],
     [('selection and correction', 'kerncraft/machinemodel.py MachineModel.get_bandwidth')],
     observe=['MachineModel.get_bandwidth(level, reads, writes, threads, cores)'],
     note='Bounds: up to 3 kernels (thorough 4) with up to 6 read and 2 write streams of symbolic size, up to 3 measurements, 3 levels.')

prop('C11', 'ECM data transfer cycles follow from traffic and throughput of each level',
     'For all cache predictions and machine files the ECM model charges every level between caches '
     'with its transferred cachelines divided by its throughput: loads plus stores if half-duplex, '
     'the larger of both if full-duplex (other words are refused), and memory with the bytes times '
     'clock over the saturated bandwidth measured for just that many streams, plus the penalty '
     'cycles per loaded and stored cacheline. Conversions to cycles per iteration, iterations per '
     'second and FLOP/s describe the same speed with the iterations one cacheline takes, loop '
     'increments and unlimited speed included.',
     ['inputs', 'programs'], 'all loads, stores, throughputs, clocks, cacheline sizes, types and increments',
     'tests compare results of a few kernels on one machine with unit increments',
     ['kerncraft/models/ecm.py'],
     [('data cycles', 'kerncraft/models/ecm.py ECMData.calculate_cycles, analyze'),
      ('conversion', 'kerncraft/models/ecm.py ECMData.conv_cy, ECMCPU.conv_cy')],
     observe=['ECMData.analyze(), conv_cy(cycles)'],
     note='Bounds: 1-3 levels (thorough 4), all values symbolic, increments 1, 2 and 4.')

prop('C12', 'In-core analysis is normalized to cachelines and iterations',
     'For every in-core analysis result (throughput, port cycles, uops of one assembly block) and '
     'pointer increment of either sign, both models scale it by cacheline size over block size; the '
     'non-overlapping time is the largest of the ports listed as such for the model in use, the '
     'overlapping time the largest of the others, or the block throughput if that exceeds the '
     'non-overlapping time. The CPU limit of the roofline model is that throughput of all cores. '
     'Arguments reach the analysis whether given on the command line or to the constructor.',
     ['inputs', 'configurations'], 'all analysis results, increments, port lists, numbers of cores',
     'tests compare the analysis of a few kernels, with positive increments and default arguments',
     ['kerncraft/models/ecm.py', 'kerncraft/models/roofline.py'],
     [('ECM', 'kerncraft/models/ecm.py ECMCPU.__init__, analyze'),
      ('Roofline', 'kerncraft/models/roofline.py RooflineASM.__init__, analyze')],
     observe=['ECMCPU.analyze(), RooflineASM.analyze() results'],
     note='Bounds: blocks of 1-64 elements, 4 ports, 3 port lists; kernel.incore_analysis is a stand-in.')

prop('C13', 'The ECM model combines its parts and scales over cores as defined',
     'For all in-core and transfer cycles the ECM prediction is the maximum of the overlapping parts '
     'and the sum of the non-overlapping ones (penalties included), each part appearing once under '
     'its name; overlap below a level without is refused. For every number of cores the scaling '
     'follows the utilization of the memory interface: one core performs as predicted, more cores '
     'are never slower, never faster than the memory or than that many cores alone, saturate where '
     'the utilization reaches one, scale linearly over NUMA domains, and perfectly within caches.',
     ['inputs', 'configurations'], 'all cycles, overlap flags, cores per NUMA domain and socket',
     'tests check the single-core prediction of a few kernels on one machine without overlap',
     ['kerncraft/models/ecm.py'],
     [('composition and scaling', 'kerncraft/models/ecm.py ECM.__init__, analyze')],
     observe=['ECM.analyze() results: ECM, total cycles, scaling cores, scaling prediction, multi-core'],
     note='Bounds: 1-3 levels below L1 (thorough 4) with all overlap patterns, up to 3 cores per NUMA domain and 4 per socket (thorough 4 and 6).')

prop('C14', 'The roofline model reports the lowest of all ceilings',
     'For all cache predictions and bandwidths the performance at each memory level is its bandwidth '
     'for the streams and cores in question times iterations per transferred byte (unlimited without '
     'transfers, elements read and written between registers and L1), the bottleneck is the slowest '
     'level, the peak is clock times cores times FLOPs per cycle in the precision of the kernel, and '
     'the report says CPU bound exactly if the peak (or in-core throughput) is lower than all levels.',
     ['inputs', 'programs'], 'all loads, stores, bandwidths, clocks, FLOP counts, types and increments',
     'tests check the bottleneck of two kernels, none of them CPU bound',
     ['kerncraft/models/roofline.py'],
     [('ceilings', 'kerncraft/models/roofline.py RooflineFLOP.calculate_cache_access, analyze, conv_perf, report'),
      ('in-core', 'kerncraft/models/roofline.py RooflineASM.analyze, report')],
     observe=['results of analyze(): mem bottlenecks, bottleneck level, min performance, max_perf', 'report()'],
     note='Bounds: 7 kernels, 1-2 levels below L1 (thorough 3), all numbers symbolic.')

prop('C15', 'Intermediate files used are complete and fresh despite crashes and other runs',
     'No run of kerncraft ever uses an intermediate file (header, code, object, executable, analysis '
     'or cache prediction) that is incomplete, still being written by another run, or older than '
     'the kernel source, the code of kerncraft or the machine description it depends on. This holds '
     'for every interleaving of concurrent runs, for runs killed at any point and for compilers and '
     'analyzers that fail. Locks are held from the check of a file until its last use, the writer '
     'is alone, runs do not deadlock, and everything still works where files cannot be locked.',
     ['interleavings', 'crash points', 'faults'],
     'all schedules of two runs with a bounded number of switches, all points of one crash, all modification times',
     'tests run one process after the other and never interrupt one',
     ['kerncraft/kernel.py', 'kerncraft/cacheprediction.py'],
     [('freshness and locks', 'kerncraft/kernel.py KernelCode._check_freshness, lock_intermediate, release_exclusive_lock'),
      ('writers', 'kerncraft/kernel.py get_kernel_header, get_kernel_code, get_main_code, compile_kernel, build_executable, incore_analysis'),
      ('predictions', 'kerncraft/cacheprediction.py LayerConditionPredictor, CacheSimulationPredictor')],
     observe=['content of files and locks held when another program or part of kerncraft uses them'],
     note='Bounds: two runs, one to three switches and one crash at symbolic steps; file system, flock, clock, compiler and analyzers are stand-ins.')

prop('C16', 'Results based on intermediates of earlier runs equal those from scratch',
     'For any two configurations (machine, cacheline size, caches, compiler, flags, cores, ISA, '
     'in-core model, block and pointer increment, parallelization, order and values of constants) '
     'a run after any earlier runs on the same kernel yields exactly the code, executable, analysis '
     'or prediction it would have yielded with no intermediates present. Different machine models '
     'are told apart.',
     ['histories', 'configurations'], 'all pairs (thorough: sequences of up to four) of configurations',
     'tests remove intermediates or run one configuration only',
     ['kerncraft/kernel.py', 'kerncraft/cacheprediction.py', 'kerncraft/machinemodel.py', 'kerncraft/incore_model.py'],
     [('locations', 'kerncraft/kernel.py KernelCode.get_intermediate_location and its callers'),
      ('stored predictions', 'kerncraft/cacheprediction.py LayerConditionPredictor, CacheSimulationPredictor'),
      ('identity of machines', 'kerncraft/machinemodel.py MachineModel.get_identifier')],
     observe=['contents of files returned, incore_analysis() and get_loads() ... results'],
     note='Bounds: two to three runs with symbolic configurations; machine files with the same identifier are the same.')

prop('C17', 'Answers of a kernel depend on its current constants, not on history',
     'For every sequence of setting and clearing constants, analyses and code generation, on this '
     'or on other kernels, sizes, loop bounds, iteration numbers, address traces, reports and '
     'generated code are those of a new kernel with the values set last. Asking changes nothing.',
     ['histories', 'inputs'], 'all sequences of up to 3 (thorough 4) steps, all values',
     'tests create one kernel, set constants once and ask once',
     ['kerncraft/kernel.py'],
     [('constants', 'kerncraft/kernel.py Kernel.set_constant, clear_state, subs_consts'),
      ('queries', 'kerncraft/kernel.py Kernel.array_sizes, iteration_length, get_loop_stack, global_iterator_to_indices, compile_global_offsets')],
     observe=['results of all query methods of Kernel and of code generation'],
     note='Bounds: 13 kernels (quick 5), up to 3 steps (thorough 4), values from 9 to 10^6.')

prop('C18', 'Detected pointer increments are the distance addresses really move by',
     'For every assembly block (x86, AArch64) the detected increment is the distance by which the '
     'addresses of its stores (or else loads) move per execution: if all move alike by constants, '
     'through any arithmetic on base or index registers, scaling or pre-/post-indexing, it is that '
     'sum; otherwise none is claimed. Instrumentation puts markers exactly around the block asked '
     'for (by number, or the most vectorized one), leaves all other code as it is and notes the '
     'increment; without an increment nothing is left behind.',
     ['programs', 'inputs'], 'all immediates, registers and orders of instructions of the bounded blocks',
     'tests detect increments in compiled code of a few kernels, all moving by one add',
     ['kerncraft/incore_model.py'],
     [('increments', 'kerncraft/incore_model.py ISA.get_pointer_increment (x86, AArch64)'),
      ('instrumentation', 'kerncraft/incore_model.py asm_instrumentation, ISA.select_best_block, find_asm_blocks')],
     observe=['increment returned or noted', 'text written by asm_instrumentation'],
     note='Bounds: up to 4 instructions besides the jump, immediates -4096 to 4096, files of 2 loops (thorough 3).')

prop('C19', 'Benchmarks measure every counter needed and derive metrics by definition',
     'For every set of events, runs are scheduled such that each event is counted exactly once, in '
     'one of its registers, never two in one register, and no event waits for a later run while a '
     'register is free. Every counter value measured reaches exactly the metrics that name its event '
     'and options. For all measurements the benchmark runs long enough, with the constants of the '
     'kernel and the cores asked for, and runtime, performance, volumes, transfers and ECM parts are '
     'those of the definition; wrong frequencies are refused and the environment is restored.',
     ['inputs', 'configurations'], 'all runtimes, counter values, clocks, sizes and combinations of events',
     'tests cannot run likwid-perfctr; scheduling is documented by examples only',
     ['kerncraft/models/benchmark.py', 'kerncraft/machinemodel.py'],
     [('scheduling', 'kerncraft/models/benchmark.py group_iterator, register_options, eventstr, build_minimal_runs'),
      ('metrics', 'kerncraft/machinemodel.py MachineModel.parse_perfmetric, parse_perfctr_event'),
      ('measurement', 'kerncraft/models/benchmark.py perfctr, fix_env_variable, Benchmark.perfctr, analyze')],
     observe=['commands run, Benchmark.results'],
     note='Bounds: up to 3 events (thorough 5), 12 register descriptions, up to 3 runs until the runtime is long enough; likwid-perfctr is a stand-in.')

prop('C20', 'Command line analyses every combination of constants with each model once',
     'For every set of -D definitions (numbers, ranges lin/log/log2, factors, default value ".") the '
     'command line runs every selected model once for every combination of the values described, '
     'with exactly these constants set, for all constants the kernel needs; values of ranges start '
     'and stop where described with the number of steps asked for. Incomplete or malformed '
     'definitions and contradictory options are refused before anything is analyzed. Results '
     'already stored for a combination are kept, new ones are added, even if an analysis fails.',
     ['inputs', 'configurations'], 'all texts of definitions and combinations of the bounded size',
     'tests run a handful of fixed command lines',
     ['kerncraft/kerncraft.py'],
     [('definitions', 'kerncraft/kerncraft.py AppendStringRange, space'),
      ('arguments', 'kerncraft/kerncraft.py create_parser, check_arguments, identifier_from_arguments'),
      ('run', 'kerncraft/kerncraft.py run, jsonify_obj')],
     observe=['constants set when a model is constructed, results stored'],
     note='Bounds: texts of definitions up to 5 symbolic characters (thorough 7), up to 3 constants '
          'with up to 3 values, ranges of up to 4 steps; models are stand-ins that record the kernel.')

prop('C21', 'Removing comments and directives changes nothing else of the code',
     'For every source text, removing comments yields the text with every comment, and nothing '
     'else, replaced by a blank (line breaks stay, so that line numbers do), whatever order comment '
     'delimiters come in; removing macros and pragmas removes exactly the lines of such directives.',
     ['inputs'], 'all texts of the bounded length over the characters that matter',
     'tests clean a few kernels, which hold ordinary comments only',
     ['kerncraft/pycparser_utils.py'],
     [('cleaning', 'kerncraft/pycparser_utils.py clean_code')],
     observe=['text returned by clean_code'],
     note='Bounds: up to 6 symbolic characters (thorough 9) over slash, star, line break, letters '
          'and blanks; 3 lines (thorough 4) of code and directives. Strings with comment delimiters '
          'are outside.')

prop('C22', 'Merging result files keeps everything, later files win',
     'For every sequence of result files, merging yields one file with every entry of every file, '
     'nested dictionaries merged entry by entry, and the value of the last file where entries '
     'differ; sources are not altered, the destination is only written if asked for.',
     ['inputs'], 'all nested dictionaries of the bounded size, any number values',
     'there are no tests of merging', ['kerncraft/picklemerge.py'],
     [('merge', 'kerncraft/picklemerge.py update, main')], observe=['dictionary dumped'],
     note='Bounds: dictionaries of up to 3 keys and depth 2, up to 3 files; pickle is a stand-in.')

prop('C23', 'Machine descriptions state what the tools report about the machine',
     'For every machine reported by likwid-topology and cpuinfo, a generated description has its '
     'sockets, cores, threads, NUMA domains and names, and a memory hierarchy with the size, groups, '
     'cores and threads of every cache, each loading from the next; entries not asked for stay. A '
     'description is taken for the current machine exactly if all its topology entries agree; '
     'comparing changes nothing, and descriptions are independent of each other. Only descriptions '
     'of supported versions are taken, and a written description is read back as it was.',
     ['inputs', 'configurations'], 'all numbers of sockets, cores, threads, domains, sizes, versions within bounds',
     'tests generate one description from one dummy output', ['kerncraft/machinemodel.py'],
     [('readouts', 'kerncraft/machinemodel.py get_machine_readouts, get_memory_hierarchy, get_match_or_break'),
      ('comparison', 'kerncraft/machinemodel.py MachineModel.current_system, update'),
      ('files', 'kerncraft/machinemodel.py MachineModel.__init__, dump')],
     observe=['entries of the machine model'],
     note='Bounds: 512 cores, 64 sockets, 3 caches of up to 4096 kB/MB; tools are stand-ins; dump is '
          'decided for one description and all targets.')

prop('C24', 'Benchmarks of a machine fit the levels measured and are kept only as long',
     'For all cache sizes, the working set of every benchmark exceeds the caches before its level '
     'and, where possible, stays within its own for the number of cores it runs on; likwid-bench is '
     'run with that size and number of threads by the fastest suitable kernel; the best of all '
     'repetitions is recorded. Measurements of earlier runs are kept exactly if complete and of the '
     'same sizes (1 %) and cores; all others are repeated.',
     ['inputs', 'histories'], 'all sizes and bandwidths, previous measurements complete or not',
     'tests cannot run likwid-bench', ['kerncraft/machinemodel.py'],
     [('benchmarks', 'kerncraft/machinemodel.py MachineModel._update_benchmarks'),
      ('measurement', 'kerncraft/machinemodel.py measure_bw, find_fastest_bench_kernel, get_available_bench_kernels')],
     observe=['commands run, benchmarks entry of the machine model'],
     note='Bounds: 1 to 3 cores (thorough 4), 1 to 2 threads (thorough 4), caches of 10 kB to 100 MB; '
          'one bandwidth at a time is symbolic; likwid-bench is a stand-in.')

prop('C25', 'In-core results are those the chosen analyzer reports for the marked section',
     'Whatever LLVM-MCA, IACA or OSACA report for the marked code, the port occupation, throughput '
     'and critical path returned are the ones they state, per iteration of the analyzed section and '
     'not multiplied or rounded; failures of an analyzer are reported. The section marked is the '
     'block the user selected (or the automatic choice), the element count per iteration follows '
     'from the pointer increment used, given, or remembered for the same code, and only the section '
     'marked is handed to the analyzer.',
     ['inputs', 'outputs of external tools'],
     'all cycle counts, increments and block choices, all answers of the user',
     'the analyzers are not run by the tests (IACA is not installed, LLVM-MCA crashes)',
     ['kerncraft/incore_model.py'],
     [('analyzers', 'kerncraft/incore_model.py llvm_mca_analyse_instrumented_assembly, '
                    'iaca_analyse_instrumented_binary, osaca_analyse_instrumented_assembly'),
      ('marking', 'kerncraft/incore_model.py asm_instrumentation, userselect_increment, '
                  'userselect_block, ISA.select_best_block, ISA.get_pointer_increment')],
     observe=['dictionary of results, assembly handed to the analyzer'],
     note='Bounds: up to 6 ports, 3 blocks, increments up to 10^6; analyzers are stand-ins whose '
          'printed numbers are symbolic.')

prop('C26', 'Reports state the results of the models, wholly in the output file',
     'For all results, the reports of ECMData, ECMCPU, ECM, Roofline, layer conditions and '
     'benchmarks state the numbers of the results in the unit asked for, name the bottleneck, '
     'saturation and level they belong to, and are written in full, and to nowhere else, to the '
     'output file given; higher verbosity adds to a report but changes no number.',
     ['inputs', 'options'], 'all results, units and verbosities',
     'tests check that reports are printed, not the numbers in them',
     ['kerncraft/models/'],
     [('ECM', 'kerncraft/models/ecm.py ECMData.report, ECMCPU.report, ECM.report'),
      ('Roofline', 'kerncraft/models/roofline.py RooflineFLOP.report, RooflineASM.report'),
      ('others', 'kerncraft/models/layer_condition.py LC.report, kerncraft/models/benchmark.py '
                 'Benchmark.report')],
     observe=['text written to the output file and to standard output'],
     note='Bounds: up to 3 levels, 2 or 4 cores, 4 ports, 2 caches; numbers printed are compared as '
          'exact reals with the precision of the format.')

prop('C27', 'The compiler and flags asked for are used, results of other flags are not',
     'Compiler and flags of the call come before those of the command line, which come before the '
     'machine description; flags are split at blanks and passed on unchanged and without empty ones; '
     'the first compiler installed is chosen otherwise and its absence reported. Intermediate files '
     'of different kernels, compilers, flags, machines, analyzers or block choices never share a '
     'path, and compiling, assembling and linking run that compiler with those flags on complete '
     'input files and report its failure.',
     ['inputs', 'options'], 'all flags of the bounded length, every combination of settings',
     'tests use one compiler and one set of flags per kernel',
     ['kerncraft/machinemodel.py', 'kerncraft/kernel.py'],
     [('compiler', 'kerncraft/machinemodel.py MachineModel.get_compiler'),
      ('paths', 'kerncraft/kernel.py Kernel.get_intermediate_location'),
      ('commands', 'kerncraft/kernel.py KernelCode.compile_kernel, assemble_to_object, '
                   'build_executable')],
     observe=['compiler and flags returned, paths of intermediates, commands run'],
     note='Bounds: flags of up to 3 symbolic characters (thorough 5), two to three flags; compilers '
          'are stand-ins that record the command.')

prop('C28', 'kc-pheno measures existing binaries as described and derives metrics per region',
     'Definitions, loops, flops and repetitions are understood as documented or rejected. The binary '
     'is run with its definitions in order, unpinned, on the cores asked for; definitions that are '
     'adjustable are prolonged in the direction and to the limits given, first the first, until '
     'every region takes long enough, and loops whose ends depend on them follow. Iterations, '
     'runtime, volume, performance, transfers and the ECM model of every region follow from what '
     'was counted in that region in the last run and its own loops, flops and repetitions; '
     'reports state these numbers below their names.',
     ['inputs', 'options', 'outputs of external tools'],
     'all runtimes, calls, volumes and counters per region; all texts of the bounded length',
     'kc-pheno has no tests at all (likwid is not installed)',
     ['kerncraft/standalone_pheno.py', 'kerncraft/models/standalone_benchmark.py',
      'kerncraft/kernel.py'],
     [('arguments', 'kerncraft/standalone_pheno.py AppendStringRange, AppendLoopRange, AppendFlops, '
                    'AppendRepetitionDefines, ParseMarkers, create_parser, run'),
      ('description', 'kerncraft/kernel.py BinaryDescription'),
      ('measurement', 'kerncraft/models/standalone_benchmark.py StandaloneBenchmark.perfctr, '
                      'adjust_variables, analyze, report')],
     observe=['commands run, values of definitions, results per region, report'],
     note='Bounds: 1 or 2 regions, up to 2 prolongations (thorough 3), 2 nested loops, texts of up '
          'to 5 characters (thorough 6); likwid-perfctr is a stand-in whose numbers are symbolic; '
          'binaries whose last run takes no time are outside.')
