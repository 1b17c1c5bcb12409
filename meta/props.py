"""Source of properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, observe=observe))


MON = "runtime monitoring: "

prop("N01", "Partitioning conserves the network and completes every process's neighbourhood",
     "After a network is partitioned over the processes of a communicator, every bus and every branch of the input is owned by exactly one process with its data, component and indices unaltered. "
     "Every process also holds, exactly once, each branch touching a bus it owns and the bus at its other end, and its local indices, endpoint references and neighbour lists describe exactly the branches and buses it holds. "
     "Removing the ghosts leaves exactly the owned objects with consistent local references, and the network can then be partitioned again, or emptied and rebuilt, with the same guarantees.",
     ["inputs", "configurations", "histories"],
     "every connected or disconnected network, numbering, initial placement, number of processes, sub-communicator, and sequence of partition, clean, repartition and clear",
     "the tests partition two or three fixed networks on two processes and mostly print what they see; ghost completeness depends on how the partitioner cuts each particular graph",
     ["src/network/base_network.hpp", "src/partition/graph_partitioner_implementation.cpp", "src/partition/graph_partitioner.cpp", "src/partition/adjacency_list.cpp", "src/parallel/shuffler.hpp"],
     [("partition()", "src/network/base_network.hpp"), ("clean()/clear()", "src/network/base_network.hpp"), ("GraphPartitioner", "src/partition/graph_partitioner_implementation.cpp")],
     MON + "offline conservation and topology checker over per-process network dumps, ASan/UBSan",
     "random networks of 8 topology families on 1..8 processes and simultaneous sub-communicators; the dump of every process is compared with the input network")

prop("N02", "After an exchange every ghost copy equals its owner's current data",
     "After a bus (or branch) exchange, the exchange buffer of every copy of a bus (or branch) on any process holds byte for byte what the owning process's buffer held when the exchange was called, and owned buffers are unchanged. "
     "This holds for any sequence of writes, exchanges, re-initialisations and reallocations with any buffer sizes, whether the network or the components own the buffers, and on any division of the processes.",
     ["inputs", "histories", "configurations"],
     "every partitioned network, buffer size, allocation mode, sequence of exchange operations, process count and sub-communicator",
     "tests exchange one fixed-size integer once on a grid; stale, shifted or truncated transfers appear only with other sizes, unequal bus and branch sizes, or repeated and interleaved exchanges",
     ["src/network/base_network.hpp", "src/factory/base_factory.hpp"],
     [("initBusUpdate/updateBuses/initBranchUpdate/updateBranches", "src/network/base_network.hpp"), ("allocXC*/freeXC*", "src/network/base_network.hpp"), ("setExchange", "src/factory/base_factory.hpp")],
     MON + "every byte of every copy compared with the owner's last write after each update, ASan/UBSan",
     "random scripts of writes, ghost scribbles, (re)initialisations, reallocations and updates on random partitioned networks")

prop("N03", "Global indices, look-ups, component wiring and clones agree on all processes",
     "After global indices are (re)assigned, the indices of buses and of branches are permutations of 0..N-1, every copy of an object carries its owner's index, and look-ups by original number or number pair return exactly the matching local objects. "
     "Wired components report the same indices, neighbours and reference bus as the network, with unique matrix positions consistent between copies. "
     "A clone of a network into another component type reproduces topology, ownership, indices and data without sharing state.",
     ["inputs", "configurations"],
     "every network, numbering, partition, reference bus, process count and way of resetting indices",
     "tests check these on one small grid with two processes and consecutive numbers",
     ["src/network/base_network.hpp", "src/factory/base_factory.hpp", "src/component/base_component.cpp", "src/parallel/index_hash.cpp"],
     [("resetGlobalIndices", "src/network/base_network.hpp"), ("getLocalBusIndices/getLocalBranchIndices", "src/network/base_network.hpp"), ("setComponents", "src/factory/base_factory.hpp"), ("clone", "src/network/base_network.hpp")],
     MON + "offline cross-process consistency checker over component and network dumps, ASan/UBSan",
     "random networks, three index-reset modes, wiring and clone observed on every process")

prop("S01", "Network listings carry every component exactly once in global order",
     "A listing or gather of buses (or branches) yields, at the head process only, the text or record of every component that has something to say for the given signal, exactly once and in global-index order, whatever the distribution of the network. "
     "Headers and successive listings appear in call order in the stream they were directed to.",
     ["inputs", "configurations", "histories"],
     "every network, partition, subset of answering components, signal, record length, process count and sequence of listings, headers and stream changes",
     "the only test prints a grid and compares nothing",
     ["src/serial_io/serial_io.hpp"],
     [("SerialBusIO/SerialBranchIO::write", "src/serial_io/serial_io.hpp"), ("writeStrings, gatherData", "src/serial_io/serial_io.hpp")],
     MON + "exactly-once and ordering checker over the produced files and gathered vectors, ASan/UBSan",
     "random networks and random sequences of listings with hashed answers; whole file text compared")

prop("P01", "The distributed index map returns exactly the stored values for every key",
     "Collectively looking up any list of keys returns, on each process, one entry for every value any process stored under each requested key, paired with that key, and nothing else. "
     "This holds for single and for paired integer keys of any value, with processes or whole calls that contribute nothing, and a new set of stored pairs completely replaces the previous one of its kind.",
     ["inputs", "histories", "schedules", "configurations"],
     "every sequence of additions and look-ups, key range, distribution of keys over processes, number of processes and timing",
     "the test stores and reads one arithmetic pattern; hashing of negative or large keys, empty contributions and few-entries cases never occur in it",
     ["src/parallel/index_hash.cpp", "src/parallel/index_hash.hpp"],
     [("addPairs", "src/parallel/index_hash.cpp"), ("getValues", "src/parallel/index_hash.cpp"), ("hashValue/pairHashValue", "src/parallel/index_hash.cpp")],
     MON + "multiset comparison of every process's answers with a reference map, with delays injected before array-library calls, ASan/UBSan",
     "random plans of additions and look-ups on 1..8 processes and simultaneous sub-communicators")

prop("P02", "Distributed records reach every copy of their bus or branch exactly once",
     "When records keyed by original bus numbers (or branch end-number pairs) are distributed over a network, each process ends with exactly one pair (local index, record) for every record and every local copy of the bus or branch it is keyed by, wherever the record was supplied. "
     "Records arrive bit for bit unaltered, records for unknown identifiers reach nobody, and processes may supply any number of records including none.",
     ["inputs", "configurations", "schedules"],
     "every partitioned network, set of records, placement of suppliers, record type and length, repeated keys, parallel branches and process count",
     "the test sends one value per bus from one process on a fixed grid",
     ["src/parser/hash_distr.hpp"],
     [("distributeBusValues", "src/parser/hash_distr.hpp"), ("distributeBranchValues", "src/parser/hash_distr.hpp")],
     MON + "exactly-once delivery checker over the records sent and received by all processes, ASan/UBSan",
     "random networks and plans; structures and arrays of values, unknown keys, empty contributions")

prop("P03", "Shuffling moves every object to its destination exactly once and intact",
     "When objects are shuffled, each process ends with exactly the objects that were addressed to it by any process, each once and with its contents unchanged, and nothing else. "
     "This holds for any object contents and sizes, any destinations, processes that send or receive nothing, and repeated shuffles, for both shuffling implementations.",
     ["inputs", "configurations", "schedules"],
     "every assignment of objects to destinations, object size, number of processes and timing",
     "tests shuffle a few fixed strings between processes in one pattern and print the result",
     ["src/parallel/shuffler.hpp", "src/parallel/ga_shuffler.hpp"],
     [("Shuffler::operator()", "src/parallel/shuffler.hpp"), ("gaShuffler::operator()", "src/parallel/ga_shuffler.hpp")],
     MON + "conservation checker: multiset of identities addressed to each process against those it received, payload recomputed from identity; ASan/UBSan",
     "random destinations in five patterns, variable-size objects, several rounds, injected delays")

prop("P04", "Every task is handed out exactly once",
     "Between two resets, every task number from 0 to the declared count minus one is handed to exactly one process, or to exactly one group whose members all receive the same number, and each process finally learns that no tasks remain. "
     "After a cancellation no task is handed out twice and the cancelling process receives no further tasks.",
     ["schedules", "histories", "configurations"],
     "every interleaving of requests, task durations, task counts (including none), resets, cancellations, groupings and process counts",
     "the test prints the tasks each process got in one schedule",
     ["src/parallel/task_manager.hpp"],
     [("nextTask", "src/parallel/task_manager.hpp"), ("set/cancel", "src/parallel/task_manager.hpp")],
     MON + "exactly-once checker over the hand-out log of all processes under random task durations and delays injected before array-library calls",
     "1..8 processes, single takers and groups, several rounds and cancellations")

prop("P05", "Globally stored vectors and elements are readable everywhere as written",
     "After an upload, every process reads for each index exactly the vector (or element) that some process stored there, whatever its type and length, and an empty result (or zero element) for an index nobody stored. "
     "Later resets and reloads change exactly the named elements.",
     ["inputs", "schedules", "histories"],
     "every assignment of vectors or elements to processes, element type, length, gaps, round of reloads, process count and timing",
     "tests store one regular pattern without gaps, and a lost update needs one process to run ahead of another",
     ["src/parallel/global_store.hpp", "src/parallel/global_vector.hpp"],
     [("GlobalStore::upload/getVector", "src/parallel/global_store.hpp"), ("GlobalVector::upload/reload/getData/getAllData", "src/parallel/global_vector.hpp")],
     MON + "read-back of every element on every process compared with what was stored, with delays injected before array-library calls and block clearing",
     "five element types, gaps and empty vectors, four ownership patterns")

prop("P06", "Derived communicators have the right members and their reductions are exact",
     "Dividing or splitting a communicator gives each process the communicator of exactly the processes of its part, in rank order, in both the message-passing and the array view, with no part larger than requested and no more parts than needed. "
     "Sums, maxima, minima and any/all tests over any communicator, including copies of it, return on every member the value computed from its members' contributions alone.",
     ["inputs", "histories", "configurations"],
     "every sequence of divisions, splits, copies and returns to the parent, number of processes and contributed values",
     "the tests divide once with one size and print ranks",
     ["src/parallel/communicator.cpp", "src/parallel/communicator.hpp"],
     [("divide/split/self", "src/parallel/communicator.cpp"), ("sum/max/min/any/all", "src/parallel/communicator.cpp")],
     MON + "membership and reduction values recomputed from the members' own data, gathered independently with MPI",
     "random chains of up to five derivations on 1..8 processes; documented precondition: every process of the world takes part in making a communicator")

prop("M01", "The matrix mapper assembles exactly the blocks components contribute",
     "For any partitioned network the mapped matrix has the dimensions the contributing buses add up to, each process owning the rows of its own buses, and every element equals the one contributed by its bus or branch in the documented position, all others being zero. "
     "Sparse, dense and real-valued variants agree. Re-mapping, overwriting and incrementing change exactly the elements whose components answer, as documented, whichever process holds them.",
     ["inputs", "configurations", "histories"],
     "every network, partition, block shape per bus, direction-dependent branch contribution, process count and sequence of map, overwrite and increment calls",
     "tests assemble one regular grid with 1x1 blocks and one operation of each kind",
     ["src/mapper/full_map.hpp", "src/component/base_component.hpp", "src/math/matrix.hpp"],
     [("FullMatrixMap::mapToMatrix/overwriteMatrix/incrementMatrix/check", "src/mapper/full_map.hpp"), ("getMatVecIndices", "src/component/base_component.cpp")],
     MON + "every element of every resulting matrix compared with a dense reference computed from the components' own definitions; ASan/UBSan",
     "random networks with blocks of 1..3 by 1..3 on 1..8 processes and simultaneous groups; no parallel branches")

prop("M02", "The bus vector mapper carries values between buses and vector without loss",
     "A mapped vector holds, in bus order and block by block, exactly the values its contributing buses supply, each process owning the elements of its own buses. "
     "Mapping a vector back gives every bus, including the copies of it that are exchanged, exactly its own elements of that vector, after any change made to the vector.",
     ["inputs", "configurations", "histories"],
     "every network, partition, block length per bus, process count and sequence of map, re-map, vector operation and map-back calls",
     "tests map one grid with one value per bus",
     ["src/mapper/bus_vector_map.hpp", "src/component/base_component.hpp"],
     [("BusVectorMap::mapToVector/mapToBus", "src/mapper/bus_vector_map.hpp")],
     MON + "all vector elements and all values pushed back compared with a reference; ASan/UBSan",
     "random networks with block lengths 1..3 and silent buses on 1..8 processes and simultaneous groups")

prop("M03", "Generalised mappers number and place every variable exactly once",
     "Every row, column, vector element and slab row declared by a bus or branch gets exactly one index, the indices form 0..n-1, each process owning a contiguous range, and all copies of a component know the same ones. "
     "The mapped matrix, vector or slab holds exactly the values contributed at those indices, re-mapping, overwriting, incrementing and scaling keep that so, and pushing values back gives each component exactly its own.",
     ["inputs", "configurations", "histories"],
     "every network, partition, number of variables per component including none on a whole process, slab width, process count and sequence of operations",
     "tests use one grid where every component has the same number of variables",
     ["src/mapper/gen_matrix_map.hpp", "src/mapper/gen_vector_map.hpp", "src/mapper/gen_slab_map.hpp", "src/math/petsc/petsc_matrix_wrapper.cpp"],
     [("GenMatrixMap", "src/mapper/gen_matrix_map.hpp"), ("GenVectorMap", "src/mapper/gen_vector_map.hpp"), ("GenSlabMap", "src/mapper/gen_slab_map.hpp")],
     MON + "index bijection checker and element-wise comparison with a reference; accessor calls outside a component's declared range are reported; ASan/UBSan",
     "0..3 rows, columns, elements and slab rows per component on 1..8 processes and simultaneous groups")

prop("R04", "A network written by an exporter is read back unchanged",
     "Writing a network with the exporter of a PSS/E format and reading the result with the parser of that format gives the same buses, branches, generators, loads, shunts, lines and transformers, with the same orientation, order, circuit and device identifiers and the same value in every field that the exporter writes, up to the printed digits. "
     "It holds on any number of processes, before and after the network is partitioned.",
     ["inputs", "configurations"],
     "every network read from a version 23, 33 or 34 file without three-winding transformers, process count, and state of partitioning",
     "no test exports a network; wrong fields or lost devices appear only for parallel circuits in both directions, several devices per bus, or several processes",
     ["src/export/PSSE23Export.hpp", "src/export/PSSE33Export.hpp", "src/export/PSSE34Export.hpp", "src/export/base_export.hpp", "src/export/data_blocks/export_line33.hpp", "src/export/data_blocks/export_xform33.hpp", "src/export/data_blocks/export_load33.hpp", "src/export/data_blocks/export_gen33.hpp", "src/export/data_blocks/export_xform23.hpp"],
     [("writeFile", "src/export/PSSE33Export.hpp"), ("writeDataBlock", "src/export/base_export.hpp")],
     MON + "round-trip comparison of every stored value before the export and after reading the exported file, ASan/UBSan",
     "random RAW files of three versions read, exported and re-read on 1..7 processes; two known findings (switched shunts of versions 23 and 34)")

prop("L01", "Distributed vectors compute what their definitions say",
     "After any sequence of vector operations, every element of a distributed vector, read on its owning process or gathered on all processes, is the value the operations define element by element. "
     "Sizes and index ranges always describe the same contiguous division, norms are those of the whole vector on every process, and operands, sources of clones and saved files stay unchanged.",
     ["inputs", "histories", "configurations"],
     "every sequence of operations and accessors, real or complex elements, local lengths including zero, and process count",
     "tests apply each operation once to one constant or index-valued vector of equal local lengths",
     ["src/math/vector.hpp", "src/math/vector_implementation.hpp", "src/math/petsc/petsc_vector_implementation.hpp", "src/math/petsc/petsc_vector_wrapper.cpp"],
     [("VectorT", "src/math/vector.hpp"), ("PETScVectorImplementation", "src/math/petsc/petsc_vector_implementation.hpp"), ("PetscVectorWrapper", "src/math/petsc/petsc_vector_wrapper.cpp")],
     MON + "every element on every process compared after each operation with a reference interpreter of the same program; ASan/UBSan",
     "random programs of up to 24 operations on up to six vectors of three lengths; elements are set only by their owning process or accumulated from any, as documented; tolerance 1e-9 relative")

prop("L02", "Distributed matrices compute what their definitions say",
     "After any sequence of matrix operations every element, row range, shape and storage type of a distributed matrix is what the operations define: element and block updates from any process, scaling, addition, products with matrices and vectors, transposes, diagonals, rows, columns, norms, identity, storage conversion, clones, and files. "
     "Operands stay unchanged.",
     ["inputs", "histories", "configurations"],
     "every sequence of operations, shape, sparsity pattern, storage type, real or complex elements, division of rows and columns including empty parts, and process count",
     "tests apply each operation once to a banded square matrix, mostly looking at the printed result",
     ["src/math/matrix.hpp", "src/math/matrix_implementation.hpp", "src/math/petsc/petsc_matrix_implementation.hpp", "src/math/petsc/petsc_matrix_operations.cpp", "src/math/petsc/petsc_matrix_wrapper.cpp"],
     [("MatrixT", "src/math/matrix.hpp"), ("multiply/transposeMultiply/transpose/add/column/diagonal", "src/math/petsc/petsc_matrix_operations.cpp"), ("PETScMatrixImplementation", "src/math/petsc/petsc_matrix_implementation.hpp")],
     MON + "every element of every matrix and vector compared after each operation with a reference interpreter of the same program; ASan/UBSan",
     "random programs of up to 20 operations; excluded as undefined by the back end: new places in a sparse matrix that is itself the result of an operation, addition or assignment between storage types, products with a dense left factor in parallel")

prop("L03", "Linear solvers return solutions of the equations that were given",
     "Whenever a linear solver returns without throwing, the solution satisfies the given equations within the configured tolerance on every process, for the current coefficients of the matrix and the right hand side of this very call. "
     "Iterative, direct, forced serial and matrix-valued solvers agree, matrix and right hand side stay unchanged, and a solver can be used again and again.",
     ["inputs", "histories", "configurations"],
     "every non-singular system, distribution, solver configuration, starting vector, sequence of solves and changes of the matrix, and process count",
     "tests solve one heat conduction problem once per configuration and mostly print the residual",
     ["src/math/linear_solver.hpp", "src/math/linear_solver_implementation.hpp", "src/math/petsc/petsc_linear_solver_implementation.hpp", "src/math/petsc/petsc_linear_matrix_solver_impl.hpp", "src/math/linear_matrix_solver.hpp"],
     [("LinearSolverT::solve/resolve", "src/math/linear_solver.hpp"), ("p_serialSolve", "src/math/linear_solver_implementation.hpp"), ("PetscLinearMatrixSolverImplementation", "src/math/petsc/petsc_linear_matrix_solver_impl.hpp")],
     MON + "residual of every returned solution and comparison with an elimination done by the checker; ASan/UBSan",
     "diagonally dominant systems of 1..16 rows on 1..8 processes and simultaneous groups, 9 method families, 7 orderings, up to six solves per solver; a constant matrix is only changed when not declared constant")

prop("L04", "Nonlinear solvers solve the equations given, by the iteration documented",
     "Whenever a nonlinear solver returns without throwing, the equations built by the user's function hold at the returned vector within the configured tolerances (or the last step was below them), and all processes agree on the outcome. "
     "The Newton-Raphson solver evaluates exactly the Newton iterates from the given start, stops at the first step below its tolerance, never exceeds its iteration limit and throws when it has not converged; tolerances changed between solves take effect.",
     ["inputs", "histories", "configurations"],
     "every system, distribution, start, configuration and sequence of solves and changes of tolerances, and process count",
     "the test solves three small problems from one start each",
     ["src/math/nonlinear_solver.hpp", "src/math/nonlinear_solver_implementation.hpp", "src/math/newton_raphson_solver_implementation.hpp", "src/math/petsc/petsc_nonlinear_solver_implementation.hpp"],
     [("NonlinearSolverT::solve", "src/math/nonlinear_solver.hpp"), ("NewtonRaphsonSolverImplementation::p_solve", "src/math/newton_raphson_solver_implementation.hpp"), ("PetscNonlinearSolverImplementation", "src/math/petsc/petsc_nonlinear_solver_implementation.hpp")],
     MON + "every function and Jacobian evaluation recorded; Newton iterates and residuals recomputed by the checker; ASan/UBSan",
     "1..16 real or complex equations on 1..8 processes and simultaneous groups, quadratic, cubic, product and sine terms, near and far starts; iterates are not judged past the point where the Jacobian is badly scaled")

prop("L05", "The DAE solver takes the steps of its method and passes events on faithfully",
     "Every step the DAE solver reports satisfies the user's equations in the discretisation chosen, from the state after the previous one; steps, end time, end state, step counts and limits are those asked for, in each of several consecutive solves. "
     "Event directions, flags and values reach the integrator as the event objects define them, exactly the triggered events of each process are handled, once, with the right part of the state, changes made by a handler take effect, and a terminating event ends the solve on every process.",
     ["inputs", "histories", "configurations"],
     "every system, distribution, method, set of event objects and sequence of events, number of solves and process count",
     "the test integrates two small systems and looks at no event",
     ["src/math/dae_solver.hpp", "src/math/dae_solver_interface.hpp", "src/math/dae_solver_implementation.hpp", "src/math/dae_event.hpp", "src/math/petsc/petsc_dae_solver_implementation.hpp"],
     [("DAESolverT::initialize/solve", "src/math/dae_solver_interface.hpp"), ("DAEEventManagerT::values/handle", "src/math/dae_event.hpp"), ("PETScDAESolverImplementation", "src/math/petsc/petsc_dae_solver_implementation.hpp")],
     MON + "record of every step and handler call; the method's equations, event values and actions recomputed by the checker; ASan/UBSan",
     "linear systems of 1..16 differential and algebraic equations on 1..8 processes, backward Euler, Crank-Nicolson and two theta methods, fixed and adaptive steps, 1 to 3 solves; on one process PETSc locates one event value, otherwise the harness triggers the registered callbacks after random steps because PETSc 3.19 locates simultaneous and distributed events unreliably")

prop("R01", "Network data files are read completely and exactly",
     "Every record of a valid PSS/E raw file (versions 23, 33, 34 and 35) reaches the bus, branch or network data it belongs to, under its documented key, index and type, with the value written in the file or its documented default or conversion; nothing is lost, added or attributed elsewhere. "
     "This holds for reading from file on any number of processes, and the data stays with its bus or branch when the network is partitioned.",
     ["inputs", "configurations"],
     "every legal file: record order, number of devices per bus, parallel and reversed branches, three-winding transformers, quoting, spacing, comments, omitted trailing fields, empty sections, and process count",
     "tests read a few shipped files and look at hardly any value",
     ["src/parser/base_parser.hpp", "src/parser/base_pti_parser.hpp", "src/parser/PTI23_parser.hpp", "src/parser/PTI33_parser.hpp", "src/parser/PTI34_parser.hpp", "src/parser/PTI35_parser.hpp", "src/stream/input_stream.cpp"],
     [("PTI23/33/34/35 parse", "src/parser/PTI33_parser.hpp"), ("branch and transformer blocks", "src/parser/block_parsers/transformer_parser33.cpp"), ("InputStream", "src/stream/input_stream.cpp")],
     MON + "every value of every bus, branch and the network compared with the generator's own record of what was written; ASan/UBSan",
     "generated files of up to about 40 buses in each version on 1..8 processes, before and after partitioning")

prop("R02", "Device files give every unit exactly the parameters written for it",
     "After a network has been read and distributed, reading a file of dynamic device records (.dyr) gives every copy of every bus and branch exactly the models and parameters that the file has for its generators, loads and relays: each field of each of the "
     "supported models under its documented key, with the index of the unit the record names. Records may span lines, use commas or blanks, leave fields empty, and be mixed with comments; records of buses, branches or units that are not in the network have no effect.",
     ["inputs", "configurations"],
     "every legal file: models, record order and layout, units per bus, absent buses and units, line ends, file version of the network and number of processes",
     "tests read a few shipped files and look at hardly any value",
     ["src/parser/base_pti_parser.hpp", "src/parser/hash_distr.hpp", "src/parser/parser_classes/genrou.hpp", "src/parser/parser_classes/wsieg1.hpp", "src/parser/parser_classes/distr1.hpp", "src/parser/parser_classes/cim6bl.hpp"],
     [("BasePTIParser::getDSExternal, find_ds_vector", "src/parser/base_pti_parser.hpp"), ("store and extract of the model classes", "src/parser/parser_classes/genrou.hpp"), ("HashDistribution", "src/parser/hash_distr.hpp")],
     MON + "every value of every unit compared with the generator's own record of what was written; ASan/UBSan",
     "generated files with 31 of the models; composite loads (CMLDBLU1) are not read because they rebuild the network; on several processes the relays of one bus are compared as a set")

prop("R03", "MATPOWER case files are read completely and exactly",
     "Reading a MATPOWER case file gives a network with exactly its buses, branches and generators: every field of every bus, generator, branch, area and cost row under its documented key and index, with loads and shunts where the bus row has them, "
     "parallel and reversed branches collected as elements of one branch, and generators counted per bus in the order of the file. Every bus and branch exists once after distribution, with the same values on every process.",
     ["inputs", "configurations"],
     "every legal case file: number and order of buses, generators per bus, parallel and reversed branches, order of tables, layout, costs, number of processes",
     "no test reads a MATPOWER file",
     ["src/parser/MAT_parser.hpp", "src/parser/base_parser.hpp"],
     [("MAT_parser::parse_buses, parse_generators, parse_branches, parse_gen_costs", "src/parser/MAT_parser.hpp")],
     MON + "every value of every row compared with the generator's own record of what was written, before and after partitioning; ASan/UBSan",
     "tables without comment or empty lines between rows; the power flow of such cases is covered by A01")

prop("A01", "A power flow that reports success has balanced the network it was given",
     "When the power flow module reports success, the voltages it reports satisfy the power balance of every bus of the network described by the input file (lines, transformers with taps and shifts, line, fixed and switched shunts, loads and "
     "generators, each with its in-service status) within the requested tolerance; regulated buses hold their set points and the reference bus its angle. Generator outputs, branch flows and overload flags are those that follow from these voltages, "
     "every bus, generator and circuit is reported exactly once, saved results equal printed ones, and all copies of a bus agree. From a start close to a solution it succeeds and finds that solution, for every solver variant, process count and group size, also after voltages are reset or the data reloaded.",
     ["inputs", "configurations"],
     "every solvable network: topology, device mix, parallel and reversed circuits, statuses, start values, tolerance, solver variant, file version (RAW or MATPOWER), number of processes and groups",
     "application tests only check that the program ends; no test recomputes a balance or a flow",
     ["src/applications/modules/powerflow/pf_app_module.cpp", "src/applications/modules/powerflow/pf_factory_module.cpp", "src/applications/modules/powerflow/pf_helper.hpp",
      "src/applications/components/pf_matrix/pf_components.cpp", "src/applications/components/y_matrix/ymatrix_components.cpp"],
     [("PFAppModule::solve, nl_solve", "src/applications/modules/powerflow/pf_app_module.cpp"), ("PFBus, PFBranch", "src/applications/components/pf_matrix/pf_components.cpp"),
      ("YMBus, YMBranch", "src/applications/components/y_matrix/ymatrix_components.cpp")],
     MON + "the residual of the reported voltages, generator shares and flows recomputed from the generator's own network model with a planted solution; ASan/UBSan",
     "random networks of 2..40 buses in raw versions 23-35 on 1..8 processes, three solver variants, groups of 2..4 processes")

prop("A02", "Contingency, limit and scaling operations act exactly as asked and can be undone",
     "After any sequence of setting and undoing contingencies, solving, checking limits, ignoring violations, enforcing and clearing reactive limits, and scaling and resetting generation or load, the power flow module behaves as if it had been "
     "given a network with exactly the resulting statuses and values: every successful solution balances that network, every violation check gives the true answer for the asked system, area or lines on every process, recorded violations name exactly "
     "what is violated, totals and margins are those of the present network, and undone operations leave no trace. A solve that does not converge says so.",
     ["histories", "inputs", "configurations"],
     "every sequence of operations on every network, every contingency including ones that cut buses off, and every number of processes and groups",
     "no test applies two operations in a row or compares a result with anything; application tests only check that the program ends",
     ["src/applications/modules/powerflow/pf_app_module.cpp", "src/applications/modules/powerflow/pf_factory_module.cpp", "src/applications/components/pf_matrix/pf_components.cpp"],
     [("PFAppModule::setContingency, unSetContingency", "src/applications/modules/powerflow/pf_app_module.cpp"), ("PFFactoryModule violation checks, scaling and totals", "src/applications/modules/powerflow/pf_factory_module.cpp"),
      ("PFBus::chkQlim, clearQlim, setGenStatus", "src/applications/components/pf_matrix/pf_components.cpp")],
     MON + "a model of the network follows the operations; every dump, flag, total and violation list is judged against it; ASan/UBSan",
     "random networks of 2..40 buses with 5 to 40 operations on 1..8 processes, groups of 2..4 processes; convergence is not demanded with reactive limits enforced or far from the start, voltages of cut-off buses are not judged")

prop("A03", "Contingency analysis evaluates every contingency once, as if it ran alone",
     "The contingency analysis program carries out every listed contingency exactly once, on exactly one group of processes, and reports each under its own name and number. A contingency reported as solved has results that balance "
     "the network without the listed elements and its violation class is the true one; one that is solvable from the start values is solved. Neither results, classes, violation lists nor the statistics over all contingencies depend on the "
     "number of processes, the group size, or which contingencies a group handled before; the program always comes to an end.",
     ["inputs", "configurations", "schedules"],
     "every network, contingency list, division into groups and assignment of contingencies to groups",
     "tests run shipped lists on one division and only check that the program ends",
     ["src/applications/contingency_analysis/ca_driver.cpp", "src/parallel/task_manager.hpp", "src/analysis/stat_block.cpp", "src/applications/modules/powerflow/pf_app_module.cpp"],
     [("CADriver::execute, getContingencies", "src/applications/contingency_analysis/ca_driver.cpp"), ("StatBlock", "src/analysis/stat_block.cpp"), ("TaskManager::nextTask", "src/parallel/task_manager.hpp")],
     MON + "all result files read back and judged: balance, a reference Newton solution, violation classes, statistics recomputed, equality between divisions; ASan/UBSan",
     "random networks of 8..55 buses with 1..12 contingencies on three of thirteen divisions of 1..8 processes; judged within the six printed decimals; with reactive limits convergence and violation class are not judged")

prop("A04", "Dynamic simulation follows its differential equations through every event",
     "From the power flow solution of any network with classical machines, the dynamic simulation starts in equilibrium and reports, at every step, the angles and speeds that modified Euler steps of the swing equations give on the network as it then is: "
     "bus and branch faults hold exactly from begin to end, each line or generator trip and reclosing takes effect once at its time and changes that line or machine only, negative-power units and generators without model are constant admittances, and "
     "units out of service contribute nothing. The simulation ends after simulationTime with one record per step and watched generator, whatever the format, the order of the events or the number of processes.",
     ["inputs", "histories", "configurations", "schedules"],
     "every network, set of machines, list of events, step and length, and number of processes",
     "tests run two shipped decks with one fault and only check that the program ends",
     ["src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp"],
     [("DSFullApp::solve, handleEvents, runonestep", "src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp"), ("DSFullBus/DSFullBranch load, diagonalYMatrix, setLineStatus, setGenStatus", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp"),
      ("ClassicalGenerator predictor, corrector", "src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp")],
     MON + "every watched state at every step compared with a network reduction and modified Euler steps computed by the checker; number of records; deadline for hangs; ASan/UBSan",
     "random networks of 5..26 buses, 40..150 steps of 4..10 ms, up to four events, 1..8 processes; watch files print six decimals")

prop("A05", "State estimation returns the weighted least squares estimate of its measurements",
     "Given a network and measurements that determine its state, the state estimation program converges to the voltages that minimise the weighted sum of squared differences between the measurements and what the network model gives for them: "
     "with exact measurements these are the voltages measured. Every measurement counts, whatever circuit identifier it names and from whichever end, with its own weight, and circuits out of service carry nothing. The estimate, branch flows and "
     "the comparison, which lists every measurement exactly once with its estimate, do not depend on the order of the measurements or the number of processes.",
     ["inputs", "configurations", "schedules"],
     "every network, set and order of measurements that determine the state, and number of processes",
     "tests run two shipped decks and only check that the program ends",
     ["src/applications/components/se_matrix/se_components.cpp", "src/applications/modules/state_estimation/se_app_module.cpp", "src/applications/modules/state_estimation/se_factory_module.cpp", "src/mapper/gen_matrix_map.hpp"],
     [("SEBus/SEBranch::matrixGetValues, vectorGetElementValues, serialWrite", "src/applications/components/se_matrix/se_components.cpp"), ("SEAppModule::solve, getMeasurements", "src/applications/modules/state_estimation/se_app_module.cpp"),
      ("SEFactoryModule::setMeasurements", "src/applications/modules/state_estimation/se_factory_module.cpp")],
     MON + "printed state, flows and comparison judged against a Gauss-Newton estimate by the checker with exact derivatives and against the planted state; number of iterations; ASan/UBSan",
     "random networks of 4..30 buses (60 once) with 10..200 measurements on 1..8 processes; judged within the six printed decimals; only measurement types the program implements")

prop("A06", "Detailed machines and controls start in equilibrium and follow their models",
     "In a dynamic simulation with round rotor and salient pole machines, exciters (EXDC1, IEEET1, SEXS, ESST1A) and governors (TGOV1, GAST, HYGOV, WSIEG1), a network in steady state stays there until the first event, and afterwards every "
     "machine follows the differential equations of its documented models: the printed angle, speed, power, voltage, field voltage and mechanical power converge to the solution of these equations as the time step is reduced, with the parameters, "
     "saturation, limits and base conversions of the input files, whichever optional blocks are present, for every sequence of faults and switching and number of processes.",
     ["inputs", "configurations"],
     "every network, combination of models and parameters, event sequence, time step and number of processes",
     "tests run shipped decks and only check that the program ends",
     ["src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/ieeet1.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/tgov1.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp", "src/applications/modules/dynamic_simulation_full_y/cblock.cpp"],
     [("predictor, corrector and init of the models", "src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp"), ("Cblock, Filter, PIControl, LeadLag, GainLimiter, Slope", "src/applications/modules/dynamic_simulation_full_y/cblock.cpp"), ("DSFullBus::predictor, corrector, setGeneratorObPowerBaseFlag", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp")],
     MON + "time series printed for every machine compared with an independent fourth order integration of the documented equations on the reduced network; convergence with the time step; ASan/UBSan",
     "random networks of 4..12 buses with up to 6 machines, 1..3 events, 1..4 processes")

prop("D01", "A data collection returns exactly what was stored under each name and index",
     "For every history of adding, setting and reading values, a data collection behaves as seven separate dictionaries, one per type: a value added or set under a name, with or without an index, is read back unchanged under that name and index and "
     "no other; indexed items are those tagged name:index for every integer index; setting and reading report whether an item of that name and type exists, and a failed one changes nothing. Copies are complete and independent, and a "
     "collection that has been serialised and restored, as when networks are partitioned, is the same collection.",
     ["histories", "inputs"],
     "every sequence of operations, name, index (any int), type and value",
     "unit tests store a few values in one order with small indices",
     ["src/component/data_collection.hpp", "src/component/data_collection.cpp"],
     [("DataCollection::addValue, setValue, getValue", "src/component/data_collection.cpp"), ("DataCollection::serialize", "src/component/data_collection.hpp")],
     MON + "a typed dictionary follows every operation; ASan/UBSan on all buffers",
     "histories of 10..70 operations on two collections, strings of up to 300 characters")

prop("C01", "Configuration input reads the same, complete and correct on every process",
     "After a configuration file or text has been opened, every process finds exactly the keys and values of the input: values of each supported type, absent keys (default, or false), dotted paths, cursors (the first of equally named "
     "blocks), children in the order of the input, and blocks of several files. An unreadable input (missing, empty, truncated) makes opening return false on every process and leaves the configuration usable; no input makes processes disagree, hang or abort.",
     ["inputs", "configurations"],
     "every configuration text, way of opening, number of processes and group",
     "the unit test reads one fixed file",
     ["src/configuration/configuration.cpp", "src/configuration/configuration.hpp"],
     [("Configuration::open, openStringFile, initialize_internal", "src/configuration/configuration.cpp"), ("Configuration::get, getCursor, children", "src/configuration/configuration.cpp")],
     MON + "every read is compared with the tree the input was generated from; ASan/UBSan and a deadline for hangs",
     "trees of depth up to 5, files up to 120 kB, 1..7 processes and splits of them; values have the form of the type they are read as; closing tags match (the XML reader does not check them)")

prop("U01", "String utilities split, trim and convert every string as documented",
     "For every input string, including empty ones and ones of separators only, the tokenisers return exactly the fields between separators (blanks within quotes kept by the blank tokeniser), trimming removes exactly the outer white space or quotes, "
     "identifiers become two-character tags, and truth words convert in any case; none of them throws or touches memory outside the string.",
     ["inputs"],
     "every string",
     "the unit test uses a few well-formed strings",
     ["src/utilities/string_utils.hpp"],
     [("StringUtils::blankTokenizer, charTokenizer", "src/utilities/string_utils.hpp"), ("StringUtils::clean2Char, trimQuotes, trim, getBool", "src/utilities/string_utils.hpp")],
     MON + "reference definitions of each function; ASan/UBSan",
     "random strings of up to some 600 characters; quoted tokens are closed; on which side a one-character tag is padded is not judged")

prop("K01", "Control blocks compute their transfer functions within their limits",
     "Every block of the control block library used by the dynamic models starts in equilibrium for the input or output given, then gives after every predictor and corrector call the output and state its transfer function defines, with state, rate and output limits enforced and no wind-up; "
     "slopes, piecewise linear functions (increasing or decreasing, set any number of times), dead bands, rate limited gains and gates give their defined values for every input.",
     ["inputs", "histories"],
     "every set of parameters and limits and every sequence of inputs and calls",
     "no test calls a control block; the applications' tests only look at the exit status",
     ["src/applications/modules/dynamic_simulation_full_y/cblock.hpp", "src/applications/modules/dynamic_simulation_full_y/cblock.cpp", "src/applications/modules/dynamic_simulation_full_y/dblock.hpp", "src/applications/modules/dynamic_simulation_full_y/dblock.cpp"],
     [("Cblock::getoutput/updatestate/init", "src/applications/modules/dynamic_simulation_full_y/cblock.cpp"), ("PiecewiseSlope, GainLimiter, Deadband, Slope", "src/applications/modules/dynamic_simulation_full_y/dblock.cpp")],
     MON + "comparison of every output and state with the definition evaluated by the checker; ASan/UBSan",
     "random parameters, limits and up to 60 steps; getoutput(u) without a stage is judged only after the initialisation, piecewise functions without any point not at all")

prop("H01", "HADREC episodes: observations and actions of the simulated system",
     "An episode of the HADREC environment (power flow, transfer, initialisation, steps) gives after every step, on every process and for any number of processes, the listed observations (rotor speed and angle, generator powers, bus voltage, load fraction) in deck order with the values the simulated "
     "machines and network have; tripped lines (in either direction, several per step, asked for repeatedly) and load changes act fully from the step after the request; elements that do not exist are left out or reported as dummies as configured; "
     "a new episode does not depend on the previous ones; reported generator, load and zone powers are those of the power flow.",
     ["inputs", "histories", "configurations", "schedules"],
     "every network, list of observations, fault, sequence of actions and episodes, and number of processes",
     "the test of the HADREC application runs one network with one list of actions and only looks at the exit status",
     ["src/applications/modules/hadrec/hadrec_app_module.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp"],
     [("HADRECAppModule", "src/applications/modules/hadrec/hadrec_app_module.cpp"), ("DSFullApp::executeOneSimuStep/setObservations/setLineTripAction/applyConstYLoad_Change_P", "src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp"), ("getBranchTripActionUpdateFactorForBus", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp")],
     MON + "comparison of every observation of every step with a reference integration of the same episode; ASan/UBSan",
     "classical machines and constant admittance loads; actions after the fault (a documented assumption of the code), one load change per bus and step; MUMPS (PETSc reuses a freed process grid of SuperLU_DIST after two factorizations were released); load shedding of dynamic loads, wide area signals and GFI adjustments are not exercised")

prop("X01", "Applications give one trajectory or result on any number of processes",
     "Every shipped application run on the shipped models reads its deck and writes a result that does not depend on the number of processes: the watch file of a dynamic simulation has one row per step and the columns of exactly the watched units; "
     "machines stay where they started until the first event; both dynamic simulation applications agree on the effect of a fault; "
     "power flow, state estimation, contingency and wind results are the same; and nothing the run does is undefined, even if the simulated system becomes unstable.",
     ["inputs", "configurations", "schedules"],
     "every deck, fault, watch list, step and number of processes",
     "the tests of the applications run each deck once with one fault and only look at the exit status",
     ["src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp", "src/applications/modules/powerflow/pf_app_module.cpp", "src/applications/modules/state_estimation/se_app_module.cpp"],
     [("DSFullApp::run/executeOneTimeStep", "src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp"), ("DSFullApp::solve", "src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp"), ("handleEvents", "src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp")],
     MON + "the shipped executables under ASan/UBSan on variations of the shipped decks, their outputs compared between runs and with invariants of equilibrium",
     "trajectories are compared until a machine is 3% away from nominal speed; before an event dsf.x and dsf2.x to 1e-3 and after it to 10% (they model the short circuit differently), all others to 2e-4; REGCC1 decks, whose interface is numerically unstable, are not used")

prop("B01", "Statistics over contingency results are those of the stored data",
     "Whatever processes add the columns, labels and bounds of a statistics block, each written table has one line per row (or column) in order, with the right labels, and its means, deviations, extremes with their positions, bounds, "
     "mask counts and sums are those of exactly the entries whose mask reaches the asked value.",
     ["inputs", "configurations", "schedules"],
     "every table shape, mask, threshold, number of processes and group, and every assignment of columns, labels and bounds to processes",
     "no unit test exists for the statistics; the application test only checks that the program ends",
     ["src/analysis/stat_block.cpp", "src/analysis/stat_block.hpp"],
     [("StatBlock::addColumnValues, addRowLabels, addRowMinValue", "src/analysis/stat_block.cpp"), ("StatBlock::writeMeanAndRMS, writeMinAndMax, writeMaskValueCount, sumColumnValues", "src/analysis/stat_block.cpp")],
     MON + "tables recomputed from the entries; ASan/UBSan",
     "up to 260 by 260 entries on 1..8 processes in up to three groups at once")

prop("B02", "Bus tables deliver every row to every copy of the bus it names",
     "After a bus table has been read, each process has, for every bus it holds, exactly the rows of the file that name that bus, with the right local index, device tag and value in every column; all processes have the comment lines and the number of "
     "columns. Rows of unknown buses are ignored, a missing file is reported on every process, and a table can be read again.",
     ["inputs", "configurations", "histories"],
     "every table, network, distribution and number of processes",
     "one test reads one table on a regular grid and only prints what it finds",
     ["src/parser/bus_table.hpp", "src/parser/hash_distr.hpp"],
     [("BusTable::readTable, getValues", "src/parser/bus_table.hpp"), ("HashDistribution::distributeBusValues", "src/parser/hash_distr.hpp")],
     MON + "rows compared with the generated file on every process; ASan/UBSan",
     "networks of up to 110 buses on 1..8 processes and groups of them, tables of up to 150 rows and 12 columns, one to three reads; the last line ends with a newline")
