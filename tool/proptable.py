I = 'src/precice/impl/ParticipantImpl.cpp'
prop('C01', 'API operations are accepted exactly in the lifecycle states that allow them',
     '''A participant is constructed, then initialised, then finalised. Every public operation reports an error and changes nothing when it is called in a state that
     does not allow it (for example initialising twice, advancing or reading before initialisation, advancing after the coupling has ended, anything but profiling after
     finalisation), is not rejected for its state when the state allows it, and moves the participant to exactly the documented next state.''',
     ['histories', 'inputs'], 'for all sequences of API calls and all arguments',
     'Tests drive a handful of correct call orders and a few wrong ones; the state check of every operation must hold for every call order.',
     [I, 'src/precice/impl/ValidationMacros.hpp', 'src/precice/Participant.cpp'],
     [('lifecycle state and its checks', I), ('state validation macros', 'src/precice/impl/ValidationMacros.hpp')],
     observe=['public API of the participant'], technique=TECH + 'lifecycle typestate')
prop('C02', 'Invalid arguments are rejected before any effect, valid ones are accepted',
     '''Every data and mesh operation of the API reports an error exactly when its arguments are invalid (unknown or unused mesh or data, wrong direction, sizes that do not
     match, vertex IDs out of range or duplicated where forbidden, non-finite values, times outside the allowed interval, degenerate elements). A rejected call leaves the stored
     data and meshes untouched.''',
     ['inputs'], 'for all arguments of every data and mesh operation',
     'Tests sample a few invalid calls per operation; omitted or weakened validation on other combinations goes unnoticed.',
     [I, 'src/precice/impl/ValidationMacros.hpp', 'src/mesh/Mesh.cpp'],
     [('argument validation', I), ('validation macros', 'src/precice/impl/ValidationMacros.hpp')],
     observe=['public API of the participant'], technique=TECH + 'error conditions of every operation')
prop('C03', 'Meshes change only where and when the protocol allows it',
     '''A mesh can be modified only by the participant that provides it, and only before initialisation, or after it was reset in a configuration that allows remeshing
     and until the next advance; outside these phases every modification is rejected. A reset is honoured at the next advance: the change is agreed on by all ranks, the mesh is
     exchanged again and the coupling is restarted on it, and otherwise all meshes are locked again.''',
     ['histories', 'inputs', 'configurations'], 'for all sequences of mesh operations, initialisations, advances and resets',
     'Tests cover a few reset and locking sequences; the lock must hold for every operation at every point.',
     [I, 'src/utils/MultiLock.hpp', 'src/precice/impl/ValidationMacros.hpp'],
     [('mesh lock', 'src/utils/MultiLock.hpp'), ('remeshing protocol', I)],
     observe=['public API of the participant'], technique=TECH + 'mesh locking and remeshing protocol')
prop('C04', 'Required actions are reported exactly when needed and cannot be skipped',
     '''The solver is asked for initial data, for writing and for reading a checkpoint exactly when the coupling needs it: writing at the start of every implicitly coupled time
     window, reading after every iteration that did not converge. A required action counts as done only when the solver asked for it, and a forgotten one is an error before the
     next exchange takes place.''',
     ['histories', 'configurations'], 'for all call histories and coupling-scheme configurations',
     'Integration tests follow the protocol correctly; the enforcement for every skipped action and every composition of schemes is not sampled.',
     [I, 'src/cplscheme/BaseCouplingScheme.cpp', 'src/cplscheme/CompositionalCouplingScheme.cpp'],
     [('required and fulfilled actions', 'src/cplscheme/BaseCouplingScheme.cpp'), ('API queries', I)],
     observe=['requiresInitialData, requiresWritingCheckpoint, requiresReadingCheckpoint, initialize, advance'], technique=TECH + 'checkpoint and initial-data protocol')

CB, FB = 'extras/bindings/c/src/preciceC.cpp', 'extras/bindings/fortran/src/preciceFortran.cpp'
prop('C05', 'The C++ facade and C bindings pass every call through unchanged',
     '''Every function of the C++ interface and of the C bindings calls exactly the operation of its name with its own arguments in order and returns its result. The C bindings derive the sizes of
     the ranges they pass from the dimensions of the mesh and data named in the call, refuse to work before a participant was created or to create a second one, and end every error in an abort
     instead of letting it leave the library.''',
     ['inputs', 'histories'], 'for all functions and all arguments',
     'The bindings are exercised by one or two smoke tests; swapped arguments, wrong sizes and missing checks of the other functions go unnoticed.',
     ['src/precice/Participant.cpp', CB], [('facade', 'src/precice/Participant.cpp'), ('C bindings', CB)],
     observe=['public C++ and C functions'], technique=TECH + 'delegation of the facade and C bindings')
prop('C06', 'The Fortran bindings pass every call through unchanged',
     '''Every Fortran routine calls exactly the operation it is named after with its own arguments in order, each string cut by its own length and trailing blanks without reading outside of it, and stores
     the result in its own output argument. It refuses to work before a participant was created or to create a second one, ends every error in an abort, and is exported under a name Fortran can call.''',
     ['inputs', 'histories'], 'for all routines and all arguments',
     'No test calls the Fortran bindings; a wrong length argument, order or size goes unnoticed.',
     [FB], [('Fortran bindings', FB)],
     observe=['precicef_* routines'], technique=TECH + 'delegation of the Fortran bindings')
CS = 'src/cplscheme/'
prop('C07', 'Written data is stored, mapped and exchanged once, in order, at the right time',
     '''In initialize and at the end of every time window (or sub-step where needed) advance stores what the solver wrote with the time it belongs to, maps it, runs the write actions,
     exchanges data, then discards outdated samples, maps the received data, runs the read actions and exports. Each step happens for every data and mesh it applies to, exactly once,
     in this order and based on the state after the exchange. Buffers are reset after storing, and a completed window never keeps samples of an abandoned iteration.''',
     ['histories', 'configurations'], 'for all configurations, time-step sequences and iteration histories',
     'Integration tests check final values of some configurations; a step that is skipped, doubled or reordered for another combination of data direction, mapping, sub-stepping and repetition goes unnoticed.',
     [I, 'src/precice/impl/WriteDataContext.cpp', 'src/precice/impl/ReadDataContext.cpp'],
     [('initialize and advance', I)],
     observe=['initialize, advance, finalize'], technique=TECH + 'data-handling protocol of initialize and advance')
prop('C08', 'Time windows complete, repeat and end exactly as the coupling prescribes',
     '''Simulated time moves only by the solver time steps. At the end of a time window an explicitly coupled or converged window is completed and the next one starts there; a window that has not
     converged is repeated from its start. Convergence is reported exactly according to the configured measures, the minimum and the maximum number of iterations, and the coupling ends exactly at the
     maximum time or number of windows. In a composition, explicit schemes wait until the implicit scheme has completed the window.''',
     ['histories', 'configurations'], 'for all coupling schemes, time-step sequences and outcomes of the convergence measures',
     'Tests run fixed step patterns of a few schemes; the automaton must be right for every step sequence, iteration count and mix of measures.',
     [CS + 'BaseCouplingScheme.cpp', CS + 'CompositionalCouplingScheme.cpp', CS + 'impl/TimeHandler.cpp'],
     [('time window automaton', CS + 'BaseCouplingScheme.cpp'), ('clock', CS + 'impl/TimeHandler.cpp'), ('composition', CS + 'CompositionalCouplingScheme.cpp'), ('measures', CS + 'impl')],
     observe=['isTimeWindowComplete, isCouplingOngoing, getMaxTimeStepSize, requiresReadingCheckpoint'], technique=TECH + 'time-window automaton')
prop('C09', 'Coupled participants exchange the same values in the same order',
     '''For every coupling scheme the sends of one participant and the receives of its partner match in condition, order, number and content: initial data, the data of every phase with its time steps and
     gradients, the time window size and the result of the convergence check. Data is sent from and received into exactly the fields configured for that partner, and what was received is stored at the time
     it belongs to.''',
     ['configurations', 'histories', 'schedules'], 'for all coupling schemes, roles, data configurations and convergence histories',
     'A mismatch between sends and receives shows only for the combination of scheme, role, initialization, sub-step exchange and gradient that has it; tests run some combinations.',
     [CS + 'SerialCouplingScheme.cpp', CS + 'ParallelCouplingScheme.cpp', CS + 'MultiCouplingScheme.cpp', CS + 'BiCouplingScheme.cpp', CS + 'BaseCouplingScheme.cpp'],
     [('exchange protocol of the schemes', CS + 'SerialCouplingScheme.cpp'), ('payload', CS + 'BaseCouplingScheme.cpp')],
     observe=['values received by the partner, order of messages'], technique=TECH + 'send/receive duality of the coupling schemes')
prop('C10', 'Collective communication inside a participant is matched on all ranks',
     '''In a parallel participant every collective operation (reduction, norm, dot product, broadcast) and every function containing one is reached by all ranks or by none: no condition or loop on the way
     depends on local mesh sizes, local values or the rank. What a secondary rank sends to the primary rank, the primary rank receives from every secondary rank in the same order with the same type under
     the same condition, and vice versa. Reductions deliver the sum over all ranks; a serial participant gets its own value.''',
     ['inputs', 'configurations', 'schedules'], 'for all partitions (including empty ones), rank counts and data values',
     'Parallel tests run few ranks with similar non-empty partitions; a collective skipped on a rank with special local data hangs or shifts messages only there.',
     ['src/utils/IntraComm.cpp', 'src/acceleration/BaseQNAcceleration.cpp', 'src/partition/ReceivedPartition.cpp', 'src/mapping/RadialBasisFctMapping.hpp', 'src/precice/impl/WatchPoint.cpp'],
     [('collective operations', 'src/utils/IntraComm.cpp'), ('users', 'src')],
     observe=['termination of all ranks, reduced values'], technique='static analysis: interprocedural rank-uniformity and primary/secondary mirror analysis over condition diagrams')
prop('C11', 'Serialized meshes, partitions and samples arrive as they were sent',
     '''What one rank packs and sends of a mesh, a connection map, bounding boxes or the time samples of a data field is received with the same parts in the same order and unpacked into the same object: every vertex
     with coordinates and global index, every edge, triangle and tetrahedron with its vertices, every rank with its entries, every sample value and gradient at its time and position. Empty objects and meshes
     without connectivity use the shorter layout on both sides.''',
     ['inputs', 'configurations'], 'for all meshes, connection maps, bounding boxes and sample series (including empty ones)',
     'Tests round-trip a few small meshes; a wrong offset, stride or condition shows only for the combination of connectivity kinds, sizes and gradients that has it.',
     ['src/com/SerializedMesh.cpp', 'src/com/SerializedPartitioning.cpp', 'src/com/SerializedStamples.cpp', 'src/com/Extra.cpp'],
     [('mesh serialization', 'src/com/SerializedMesh.cpp'), ('partitioning data', 'src/com/SerializedPartitioning.cpp'), ('sample serialization', 'src/com/SerializedStamples.cpp')],
     observe=['received objects'], technique='static analysis: symbolic layout duality of writers and readers (gated effect summaries)')
prop('C12', 'Coupled ranks exchange exactly the values of the vertices they share',
     '''Two participants connect only if their preCICE version and configuration agree, one requesting and the other accepting under the same names. Over a connection, every rank of the receiving participant gets for each of
     its vertices the value which the owning rank(s) of the sending participant hold for the same global vertex, whether data is gathered and scattered via the primary rank or sent from rank to rank, for one-level and
     two-level initialization and every dimension. All connections of a mesh are opened on all ranks, their files are removed once everybody is connected, and everything is closed at the end.''',
     ['inputs', 'configurations', 'schedules'], 'for all distributions of a mesh, numbers of ranks on both sides, data dimensions and connection kinds',
     'Tests couple a few regular partitions on at most four ranks; vertices shared by several ranks, ranks without vertices, secondary ranks of different number, and both kinds of communication with vector data need particular decompositions.',
     ['src/m2n/M2N.cpp', 'src/m2n/PointToPointCommunication.cpp', 'src/m2n/GatherScatterCommunication.cpp', 'src/m2n/BoundM2N.cpp', 'src/m2n/config/M2NConfiguration.cpp', 'src/precice/config/Configuration.cpp'],
     [('gather and scatter', 'src/m2n/GatherScatterCommunication.cpp'), ('rank to rank', 'src/m2n/PointToPointCommunication.cpp'), ('connection set-up', 'src/m2n/M2N.cpp')],
     observe=['values received on every rank', 'open connections'], technique=TECH + 'connection and exchange protocol by rank role, direction and mode')
prop('C13', 'Mapped values combine the values of the matched vertices with correct weights',
     '''Every vertex for which a consistent mapping produces values gets the combination of the values of the nearest, enclosing or projected-on element of the other mesh with its affine coordinates as weights (nearest value, linear interpolation, gradient term, per
     component and for every dimension); a conservative mapping distributes with the transposed weights. The search structures hold every element of the current mesh, everything a mapping uses is tagged in advance, and every basis function is the documented
     function of the radius, zero beyond its support.''',
     ['inputs', 'configurations'], 'for all meshes, points, data values, dimensions and constraints of the mapping methods',
     'Tests map small regular meshes and a few points; a wrong coordinate, a missed fallback, a lost corner or a wrong coefficient shows only for skewed elements, points off the mesh, vector data or uncommon radii.',
     ['src/mapping/NearestNeighborBaseMapping.cpp', 'src/mapping/BarycentricBaseMapping.cpp', 'src/mapping/Polation.cpp', 'src/math/barycenter.cpp', 'src/query/Index.cpp', 'src/mapping/impl/BasisFunctions.hpp',
      'src/mapping/RadialBasisFctMapping.hpp', 'src/mapping/RadialBasisFctBaseMapping.hpp'],
     [('weights', 'src/math/barycenter.cpp'), ('methods', 'src/mapping/BarycentricBaseMapping.cpp'), ('search', 'src/query/Index.cpp'), ('basis functions', 'src/mapping/impl/BasisFunctions.hpp')],
     observe=['mapped values', 'tagged vertices'], technique=TECH + 'mapping methods and search; rational-function normal forms compare weights and basis functions with their definitions')
prop('C14', 'Meshes are numbered, distributed, filtered and owned consistently on all ranks',
     '''A provided mesh gets contiguous global vertex numbers in rank order, with offsets and distribution agreeing on all ranks; every receiving rank gets all vertices, edges, triangles and tetrahedra within its region of interest
     (bounding boxes of all mapped meshes scaled by the safety factor, plus the access region) and keeps exactly those tagged by a mapping, with attributes. Every tagged vertex is owned by exactly one rank (also in ties),
     and the communication maps or distributions pair each kept vertex with its global number, in both initialization modes and all filter modes.''',
     ['inputs', 'configurations', 'schedules'], 'for all meshes, partitions, numbers of ranks, filter modes and both initialization modes',
     'Integration tests run a few small partitions on 2-4 ranks; ties in ownership, ranks without vertices, offsets of later ranks, and combinations of filter and initialization modes appear only for particular decompositions.',
     ['src/partition/ProvidedPartition.cpp', 'src/partition/ReceivedPartition.cpp', 'src/mesh/BoundingBox.cpp', 'src/mesh/Filter.hpp', 'src/mesh/Mesh.cpp'],
     [('provided meshes', 'src/partition/ProvidedPartition.cpp'), ('received meshes', 'src/partition/ReceivedPartition.cpp'), ('geometric filter', 'src/mesh/Filter.hpp')],
     observe=['vertex numbers', 'mesh on every rank', 'ownership', 'communication maps'], technique=TECH + 'partitioning protocol by rank role and mode')
prop('C15', 'Geometry, implied elements and contents of a mesh agree with its definition',
     '''Lengths, areas, volumes, centres, enclosing radii, normals and surface or volume integrals of mesh elements are the geometric ones in two and three dimensions, for every position of the vertices. After a mesh is set up it
     contains no element twice, and every face of a tetrahedron and every side of a triangle exactly once, whoever defined them and in whatever order of vertices. Vertices, data fields and elements are found under the ID or name they were
     created with, and the search index never describes elements which were removed or reordered since.''',
     ['inputs', 'histories'], 'for all meshes, coordinates, orders of vertices and sequences of defining, clearing and remeshing',
     'Unit tests use a few axis-parallel elements and meshes whose sides are defined consistently; a wrong face of a tetrahedron, a degenerate normal or an index left over after remeshing shows only for particular meshes and histories.',
     ['src/mesh/Mesh.cpp', 'src/mesh/Mesh.hpp', 'src/mesh/Edge.cpp', 'src/mesh/Triangle.cpp', 'src/mesh/Tetrahedron.cpp', 'src/mesh/Vertex.hpp', 'src/mesh/Utils.cpp', 'src/mesh/Data.cpp', 'src/math/geometry.cpp'],
     [('mesh', 'src/mesh/Mesh.cpp'), ('triangles', 'src/mesh/Triangle.cpp'), ('tetrahedra', 'src/mesh/Tetrahedron.cpp'), ('measures', 'src/math/geometry.cpp'), ('integrals', 'src/mesh/Utils.cpp')],
     observe=['elements and their geometry', 'mapped values', 'integrals'], technique=TECH + 'elements and meshes; formulas compared as rational functions; invalidation rule over every change of elements')
prop('C16', 'Data read at a time is interpolated from the samples stored then',
     '''The samples of a data field over a time window are kept once per time in order, replaced, trimmed or moved to the next window exactly as asked, and what is read at a time is the interpolation of exactly the samples stored
     at that moment with the usable degree (the sample itself at stored times, the next sample for degree zero). An interpolation computed earlier is never used after the samples or the degree changed; data, its waveform and the
     stored previous iteration stay in agreement.''',
     ['inputs', 'histories'], 'for all sequences of stored, replaced, trimmed and moved samples, interpolation degrees and read times',
     'Unit tests sample a few fixed sequences; an interpolation cached before a later change shows only for a particular order of reading, storing and iterating with several steps per window.',
     ['src/time/Waveform.cpp', 'src/time/Waveform.hpp', 'src/math/Bspline.cpp', 'src/mesh/Data.cpp', 'src/cplscheme/CouplingData.cpp', 'src/time/TimeGrids.cpp', 'src/math/differences.hpp'],
     [('waveform', 'src/time/Waveform.cpp'), ('interpolation', 'src/math/Bspline.cpp'), ('coupling data', 'src/cplscheme/CouplingData.cpp'), ('time grids', 'src/time/TimeGrids.cpp')],
     observe=['values read at any time of a window', 'samples exchanged'], technique=TECH + 'waveforms; cache-invalidation rule over every change of samples and degree')
prop('C17', 'Mappings are applied to exactly the samples, data and direction they belong to',
     '''Every new sample of a mapped data field is mapped exactly once, at its own time, from the configured input to the configured output data and no other; a sample is skipped only when it is too old or already there. Values, gradients
     and just-in-time coordinates are taken from and written to the position of their vertex. Cached interpolants, buffers and initial guesses are used only for the time and pair of data they were made for, and the constraint decides
     which variant of the mapping and which scaling runs.''',
     ['histories', 'inputs', 'configurations'], 'for all samples, iterations, vertex selections, mapping constraints and mesh changes',
     'Tests map one or two fields in short runs; a stale cache, a swapped key or a skipped sample shows only with several fields, subcycling, iterations or just-in-time access combined.',
     ['src/precice/impl/DataContext.cpp', 'src/precice/impl/ReadDataContext.cpp', 'src/precice/impl/WriteDataContext.cpp', 'src/mapping/Mapping.cpp', 'src/mapping/impl/MappingDataCache.hpp'],
     [('data contexts', 'src/precice/impl/DataContext.cpp'), ('read access', 'src/precice/impl/ReadDataContext.cpp'), ('write buffers', 'src/precice/impl/WriteDataContext.cpp'), ('mapping base class', 'src/mapping/Mapping.cpp'), ('just-in-time cache', 'src/mapping/impl/MappingDataCache.hpp')],
     observe=['values read from mapped data', 'just-in-time reads and writes'], technique=TECH + 'data contexts, just-in-time cache and the dispatch of mappings')
prop('C18', 'Acceleration uses the iterates of the whole window and a consistent history',
     '''Relaxation replaces every sample of every accelerated field after the start of the window by the weighted sum with the previous iterate of that time, values and gradients alike, and nothing else. Aitken and quasi-Newton
     schemes compute their factor and update from the same scaled residuals and write back every field at every time step, within its declared bounds. The difference matrices, their QR decomposition, scaling and
     column counts are extended, filtered, cleared and moved to the next window together, so that no iteration uses columns which do not belong to it.''',
     ['inputs', 'histories'], 'for all iterates, filters, numbers of reused windows, substeps, mesh partitions and convergence histories',
     'Tests run few windows on tiny meshes, where columns are rarely filtered, windows rarely dropped and restarts rarely reached; a column removed from one matrix only shows as slower or wrong convergence much later.',
     ['src/acceleration', 'src/acceleration/impl'],
     [('relaxation', 'src/acceleration/Acceleration.cpp'), ('Aitken', 'src/acceleration/AitkenAcceleration.cpp'), ('quasi-Newton', 'src/acceleration/BaseQNAcceleration.cpp'), ('IQN-ILS', 'src/acceleration/IQNILSAcceleration.cpp'), ('IQN-IMVJ', 'src/acceleration/IQNIMVJAcceleration.cpp'), ('QR decomposition', 'src/acceleration/impl/QRFactorization.cpp'), ('preconditioners', 'src/acceleration/impl/Preconditioner.hpp')],
     observe=['values written back after acceleration', 'convergence of implicit coupling'], technique=TECH + 'acceleration schemes, preconditioners and QR decomposition; layout rule for the concatenated vectors; paired-update rule for matrices and counters')
prop('C19', 'The configuration is read completely and exactly, or rejected',
     '''Every tag and attribute of a configuration reaches its definition exactly once, in document order, with predefined entities decoded once and values converted to exactly what is written, defaults standing in for absent optional attributes. Anything
     else is an error naming the offender: unknown, repeated or missing tags and attributes, values outside the allowed options, and numbers that cannot be parsed completely or represented (empty text stands for zero).''',
     ['inputs', 'configurations'], 'for all configuration files',
     'Tests read some small files; most combinations of wrong occurrence, unknown names, options, number formats and entities, and reading with more than one tag of a kind, are not run.',
     ['src/xml/ConfigParser.cpp', 'src/xml/XMLTag.cpp', 'src/xml/XMLAttribute.hpp', 'src/xml/ValueParser.cpp'],
     [('document', 'src/xml/ConfigParser.cpp'), ('tags', 'src/xml/XMLTag.cpp'), ('attributes', 'src/xml/XMLAttribute.hpp'), ('values', 'src/xml/ValueParser.cpp')],
     observe=['error messages', 'configured values'], technique=TECH + 'definition of the configuration format')
prop('C20', 'Error messages and diagnostics say what they announce and change nothing',
     '''Every message preCICE reports gets exactly the values its text announces, and names meshes, data fields and participants by the right one. Reporting that something is missing does not access what is missing.
     Assertions, debug and trace messages and the arguments of any message have no effect on the state, so that Debug and Release builds and all log levels behave the same.''',
     ['inputs', 'configurations'], 'for every message of the library and any state in which it is reported',
     'Most error paths are never run by a test, and those that are compare part of the text at best; a message with a missing value, or an effect hidden in an assertion, shows only in one build type or on one error path.',
     ['src/utils/fmt.hpp', 'src/logging/LogMacros.hpp', 'src/utils/assertion.hpp', 'src'],
     [('message formatting', 'src/utils/fmt.hpp'), ('log macros', 'src/logging/LogMacros.hpp'), ('assertions', 'src/utils/assertion.hpp')],
     observe=['text of messages', 'state after reporting'], technique='static analysis: format/argument agreement, noun/kind agreement, null-state and effect analysis of every diagnostic statement')
prop('C21', 'Asynchronous communication completes before its buffer is released or reused',
     '''Every request of an asynchronous send or receive is waited for (or tested to be complete) on every path before it is dropped or overwritten, and before its buffer is read (receive), changed, reallocated or goes out of scope (send).
     Point-to-point exchange keeps each send buffer together with its request until the request has completed, reads a received buffer only after waiting for it, and a connection is closed only after all pending requests have completed.''',
     ['schedules', 'inputs'], 'for all message sizes, peers and timings',
     'Small messages are buffered by MPI and sockets, so a missing wait or a dangling buffer corrupts data only for large messages or slow peers.',
     ['src/m2n/PointToPointCommunication.cpp', 'src/com/Communication.cpp', 'src/partition/ReceivedPartition.cpp', 'src/acceleration/impl/ParallelMatrixOperations.hpp'],
     [('request typestate', 'src'), ('buffered point-to-point requests', 'src/m2n/PointToPointCommunication.cpp')],
     observe=['values received by the peer, completion of requests'], technique='static analysis: typestate of requests with ownership and lifetime of their buffers; ordering analysis of the point-to-point exchange')
prop('C22', 'Communication backends move exactly the given data to exactly the addressed peer',
     '''Every send or receive of every backend (MPI and sockets, blocking or not, single items, ranges and strings) transfers exactly the elements of its argument with its element type to the peer addressed by the given rank,
     whatever the element count, and signals completion only afterwards; collective operations built on them deliver the reduced or broadcast value on all ranks. Connections are established with each expected peer exactly once, mapped to the rank that peer announced, and released by closing;
     shared queue state is accessed under its mutex only.''',
     ['inputs', 'schedules', 'configurations'], 'for all message types, sizes (including zero), ranks and backends',
     'Tests send a few small messages between few ranks; wrong offsets, counts, rank maps or races show only for other shapes and timings.',
     ['src/com/SocketCommunication.cpp', 'src/com/MPICommunication.cpp', 'src/com/SocketSendQueue.cpp', 'src/com/MPIPortsCommunication.cpp', 'src/com/MPISinglePortsCommunication.cpp', 'src/com/Communication.cpp'],
     [('point-to-point operations', 'src/com/MPICommunication.cpp'), ('sockets', 'src/com/SocketCommunication.cpp'), ('collectives', 'src/com/Communication.cpp')],
     observe=['values received by the peer'], technique='static analysis: effect summaries of all backend operations against a send/receive table, lock discipline, handshake duality')
prop('C23', 'Exports, watch points and logs show the coupled state at the stated time',
     '''The initial state is exported once and afterwards the end of every configured time window or every iteration, each with its own number and time; every configured export covers each mesh of the participant. Each file contains all vertices, cells and data
     values of the mesh in matching order and count, and the file of the primary rank names exactly the non-empty pieces. A watch point shows the values at the closest projection over all ranks, a watch integral the sum or surface integral over the complete mesh;
     rows of all log files have the columns of their headers.''',
     ['inputs', 'configurations', 'histories'], 'for all meshes, data, partitions and export configurations',
     'Tests export tiny meshes and compare the number or existence of files; offsets of mixed cells, empty partitions, 2D padding, export frequencies and columns of logs are hardly looked at.',
     ['src/io/ExportXML.cpp', 'src/io/ExportVTU.cpp', 'src/io/ExportVTP.cpp', 'src/io/ExportVTK.cpp', 'src/io/ExportCSV.cpp', 'src/io/TXTTableWriter.cpp', 'src/precice/impl/WatchPoint.cpp', 'src/precice/impl/WatchIntegral.cpp',
      'src/precice/impl/ParticipantState.cpp'],
     [('exporters', 'src/io'), ('watch points', 'src/precice/impl/WatchPoint.cpp'), ('timing', 'src/precice/impl/ParticipantState.cpp')],
     observe=['contents of exported files', 'rows of watch-point and log files'], technique=TECH + 'sequence of texts and values written to each stream, compared with the file format')
prop('C25', 'Configured actions change the data exactly as documented',
     '''Every action in the configuration is created with exactly its timing, mesh and data, and runs at exactly its point of the coupling, after the mapping of that direction. Scaling multiplies or divides every component of every sample by the share of its vertex
     in the adjacent edges or triangles; summation writes the sum of all sources for every time; a Python action hands time, source and target values of every sample to the module and keeps the changes. Source or target data can be left out where they
     are optional, and actions do not disturb each other.''',
     ['inputs', 'configurations'], 'for all meshes, data, sample times and combinations of actions',
     'Tests run single actions on one small mesh with one sample; optional parts, several samples, vector data and several actions together are hardly touched.',
     ['src/action/ScaleByAreaAction.cpp', 'src/action/SummationAction.cpp', 'src/action/PythonAction.cpp', 'src/action/config/ActionConfiguration.cpp'],
     [('actions', 'src/action'), ('configuration', 'src/action/config/ActionConfiguration.cpp'), ('execution', 'src/precice/impl/ParticipantImpl.cpp')],
     observe=['values read after an action', 'calls of the Python module'], technique=TECH + 'definition of each action')
prop('C26', 'Radial-basis mappings assemble, solve and gather exactly their system',
     '''A radial-basis mapping assembles exactly the documented kernel and polynomial entries for its active axes, with the solution of the configured polynomial mode, and its conservative form is the exact transpose of the consistent one. In parallel, every rank's owned vertices and
     values are gathered and the results returned in the same order for every component. A partition-of-unity mapping combines exactly the clusters that cover a vertex, with weights normalised over them, also when data is mapped just in time, where no written contribution is lost.''',
     ['inputs', 'configurations'], 'for all meshes, data, numbers of ranks, kernels and polynomial modes',
     'Tests map a few small meshes with some kernels and compare a handful of values; most combinations of polynomial mode, dead axes, components, ranks and clusters are not run.',
     ['src/mapping/RadialBasisFctSolver.hpp', 'src/mapping/RadialBasisFctMapping.hpp', 'src/mapping/PartitionOfUnityMapping.hpp', 'src/mapping/impl/SphericalVertexCluster.hpp'],
     [('systems', 'src/mapping/RadialBasisFctSolver.hpp'), ('gathering', 'src/mapping/RadialBasisFctMapping.hpp'), ('clusters', 'src/mapping/impl/SphericalVertexCluster.hpp'), ('partition of unity', 'src/mapping/PartitionOfUnityMapping.hpp')],
     observe=['mapped values'], technique=TECH + 'definition of the interpolation systems')
prop('N01', 'Consistent mappings reproduce constants and conservative mappings preserve sums',
     'Mapping a constant field with a consistent mapping yields that constant on every target vertex; a conservative mapping preserves the global sum, up to rounding and solver tolerance.',
     ['inputs'], 'for all meshes and all data', 'Tests check a few meshes.',
     ['src/mapping/RadialBasisFctMapping.hpp', 'src/mapping/NearestProjectionMapping.cpp', 'src/mapping/BarycentricBaseMapping.cpp'],
     [('mapping kernels', 'src/mapping')],
     na='Depends on the numerical values of interpolation weights and of linear solves (floating-point arithmetic over runtime meshes); no static argument in reach bounds them.')
prop('N02', 'Quasi-Newton acceleration converges to the fixed point of the coupled problem',
     'When an accelerated implicit coupling reports convergence, the exchanged data satisfies the fixed-point equation within the configured tolerance, and the accelerated iteration converges at least as fast as the plain one.',
     ['inputs', 'histories'], 'for all coupled problems', 'Tests check a few toy problems.',
     ['src/acceleration/BaseQNAcceleration.cpp', 'src/acceleration/IQNIMVJAcceleration.cpp'], [('least-squares update', 'src/acceleration')],
     na='A statement on the convergence of a floating-point iteration over unknown solver behaviour; static analysis decides only the protocol around it (see the acceleration and convergence-check properties).')
prop('N03', 'Reading data at any time inside the window interpolates to the configured order',
     'Data read at an arbitrary time inside the time window equals the B-spline or piecewise interpolant of the configured degree through the stored samples.',
     ['inputs'], 'for all sample times, values and read times', 'Tests compare a few polynomial cases.',
     ['src/math/Bspline.cpp', 'src/time/Waveform.cpp'], [('B-spline interpolation', 'src/math/Bspline.cpp')],
     na='The interpolation value is the result of a runtime linear solve in floating point; its accuracy cannot be bounded from the source. The selection and ordering of samples is covered by the time-sample property.')
prop('N04', 'Coupled participants never deadlock',
     'For every valid configuration and every correct sequence of API calls on all ranks of all participants, no set of ranks waits forever on each other.',
     ['schedules', 'configurations', 'fault_sequences'], 'for all interleavings of all participants and all process failures', 'Tests run a few schedules.',
     ['src/m2n/M2N.cpp', 'src/com/SocketCommunication.cpp', 'src/com/MPICommunication.cpp'], [('blocking communication', 'src/com')],
     na='Full deadlock freedom quantifies over operating-system buffers, network failures and the solver code itself; the protocol matching between the two sides is decided by the exchange, serialisation, collective and connection properties.')
prop('N05', 'Initialisation and re-partitioning scale with the number of ranks',
     'Initialisation time and memory per rank stay bounded by the local share of the mesh and the number of connected ranks.',
     ['inputs', 'configurations'], 'for all meshes and rank counts', 'No performance test exists.',
     ['src/partition/ReceivedPartition.cpp', 'src/m2n/PointToPointCommunication.cpp'], [('two-level initialisation', 'src/partition')],
     na='A run-time cost property over run-time sizes; no static cost bound is in reach.')
