#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list is maintained here).
import json, os
P = []
def p( id, title, st, over, text, why, files, mech, state=(), observe=(), hook=None ):
    P.append( { "id": id, "title": title, "statement": st, "quantifier": { "over": over, "text": text }, "why_tests_cant": why,
                "anchors": { "files": files, "state": [ dict( zip( ("name","meaning","where"), s ) ) for s in state ],
                             "mechanism": [ { "name": a, "where": b } for a, b in mech ], "observe_at": list( observe ), "hook_needed": hook } } )
HOOK = "PP_SIM_HOOKS: edge_sim_sync() call at every synchronization point in src/main.cpp"

p( "C01", "Results do not depend on thread scheduling, thread count or message timing",
   "For a given input and partitioning, EDGE's solution at every synchronization point, its receiver files and its wave field files are bit-for-bit the same for every interleaving of the scheduling, communicating and working threads, every number of OpenMP threads (with or without separate workers) and every delay of the messages between ranks.",
   ["schedules","fault_sequences","configurations"], "all thread interleavings at memory-access granularity, all message delays/reorderings between channels, slow or stalled threads and ranks, all thread counts",
   "The unit tests call single kernels from one thread; no test starts the scheduler, worker threads or message passing at all.",
   [ "src/time/Manager.cpp", "src/parallel/Shared.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/advection/inc/time/man_sched.inc", "src/impl/swe/inc/time/man_sched.inc", "src/parallel/MpiRemix.cpp" ],
   [ ("control flow with status hand-over WAI/RDY/IPR/FIN per work package","src/parallel/Shared.cpp"), ("dependency resolution per time group","src/impl/*/inc/time/man_sched.inc") ],
   [ ("m_cflow","per time group control flow","src/time/Manager.h") ], [ "sync points", "receiver CSVs", "VTK files" ], HOOK )
p( "C02", "Every run reaches its end time: no deadlock, livelock or lost wake-up",
   "Under every thread schedule and message timing, once injected delays and stalls stop, all ranks reach every synchronization point and the configured end time and terminate normally within a bounded number of steps.",
   ["schedules","fault_sequences","configurations"], "all fair schedules, message delays, stalls of threads and ranks, rank and thread counts, time group clusterings",
   "No existing test runs the scheduler loop or exchanges a message; a lost status transition needs a specific interleaving.",
   [ "src/time/Manager.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/advection/inc/time/man_sched.inc", "src/impl/swe/inc/time/man_sched.inc", "src/parallel/MpiRemix.cpp", "src/parallel/Shared.cpp", "src/main.cpp" ],
   [ ("spinning scheduler/communicator/worker loops over volatile statuses","src/time/Manager.cpp"), ("getTimePredAvailable/getTimePredConsumed","src/time/Manager.cpp") ],
   [ ("m_finished","set once by the scheduling thread","src/time/Manager.h") ], [ "process exit", "sync points" ], HOOK )
p( "C03", "The solution does not depend on the partitioning of the mesh",
   "Running the same problem on one rank or on any number of ranks, for any partition of the mesh, yields the same solution in every element (up to rounding), with element-local data and sampled output assigned to exactly one rank.",
   ["configurations","schedules","inputs"], "all meshes, rank counts and partition shapes (including ranks without neighbours in some time group and ranks whose elements all communicate), all schedules",
   "Tests run on a single process; the whole communication path is compiled out of the test build.",
   [ "src/parallel/Distributed.cpp", "src/parallel/MpiRemix.cpp", "src/mesh/EdgeV.cpp", "src/impl/seismic/solvers/AderDg.hpp", "tools/edge_v/src/mesh/Communication.cpp", "tools/edge_v/src/mesh/Partition.cpp" ],
   [ ("send/receive pointers per face into message buffers","src/parallel/Distributed.cpp"), ("communication structure in the mesh supplement","tools/edge_v/src/mesh/Communication.cpp") ],
   [], [ "sync points" ], HOOK )
p( "C04", "Message passing is well formed: exactly-once, matched, no buffer hazards",
   "Between any two synchronization points every sent message is received exactly once by a receive of the same size, no send buffer is modified and no receive buffer is consumed while its transfer is pending, message passing is only called from the initialising thread, collective calls match on all ranks, and nothing is left pending at shutdown.",
   ["schedules","fault_sequences","configurations"], "all delivery orders and delays, eager and rendezvous transfers, all interleavings of the communicating thread with workers",
   "The message-passing code is not even compiled in the tests.",
   [ "src/parallel/MpiRemix.cpp", "src/parallel/Distributed.cpp", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/advection/inc/time/man_sched.inc" ],
   [ ("beginSends/beginRecvs/comm/finSends/finRecvs","src/parallel/MpiRemix.cpp") ],
   [ ("m_sendReqs/m_recvReqs","pending requests per channel","src/parallel/MpiRemix.h") ], [ "MPI calls" ], None )
p( "C05", "Elastic solver reproduces polynomial solutions exactly, with local time stepping",
   "For a homogeneous material, the elastic ADER-DG solver of order O advances every solution that is a polynomial of total degree < O in space and time exactly (up to rounding) in all elements that the domain boundary has not influenced yet, for every element type, time step clustering, partitioning, synchronization interval and schedule.",
   ["inputs","configurations","schedules"], "meshes, vertex permutations, polynomial data, materials, clusterings into rate-2 time groups, rank counts, synchronization intervals, schedules",
   "Kernel tests compare single elements to stored numbers; no test advances a mesh, uses neighbouring or remote data, or takes a local time step.",
   [ "src/impl/seismic/solvers/AderDg.hpp", "src/impl/seismic/kernels", "src/impl/seismic/steps.inc", "src/time/TimeGroupStatic.cpp", "src/dg/Basis.cpp", "src/mesh/EdgeV.cpp" ],
   [ ("local/neighbouring updates with time-integrated DOFs and less-than/greater-than buffers","src/impl/seismic/solvers/AderDg.hpp"), ("rate-2 time groups","src/time/TimeGroupStatic.cpp") ],
   [], [ "sync points" ], HOOK )
p( "C06", "Work distribution covers every entity exactly once, whatever the clocks say",
   "Whatever execution times are measured for the workers (including zero, negative, stalled or jumping clocks), after every rebalancing each element is processed exactly once per step together with exactly its own sparse (receiver, source) data, so that results are unaffected.",
   ["fault_sequences","schedules","configurations"], "all clock histories (skew, backward and forward jumps, frozen clocks), slow workers, worker counts larger or smaller than the number of entities",
   "Load balancing tests use a single hand-made timing and are not even part of the offline test build.",
   [ "src/parallel/LoadBalancing.cpp", "src/parallel/LoadBalancing.h", "src/parallel/Shared.cpp", "src/monitor/Timer.hpp" ],
   [ ("balanceWrkRgn","src/parallel/LoadBalancing.cpp"), ("resolveSpEn","src/parallel/LoadBalancing.cpp") ],
   [ ("wrkPkgs","first/size/firstSp per worker","src/parallel/LoadBalancing.h") ], [ "sync points", "receiver CSVs" ], HOOK )
p( "C07", "Receivers record every sample exactly once, in order, with the right value",
   "At normal termination every receiver has exactly one file, in the directory of exactly one rank, holding one row for each multiple of the sampling interval before the end time, in order and without gaps or duplicates, with the solution's value at the receiver's location and that time, for all schedules, buffer flushes and partitionings.",
   ["schedules","inputs","configurations"], "all interleavings of sampling workers with flushing, sampling rates above and below the time step, receivers in shared elements, on faces and vertices and outside of the mesh, time groups and ranks",
   "The receiver test writes a single receiver from one thread; sampling and flushing never overlap.",
   [ "src/io/Receivers.cpp", "src/io/Receivers.h", "src/io/inc/setup_recv.inc", "src/data/SparseEntities.hpp", "src/impl/seismic/solvers/AderDg.hpp", "src/parallel/Distributed.cpp" ],
   [ ("writeRecvAll/flushIf/flushAll","src/io/Receivers.cpp"), ("Distributed::min ownership bidding","src/parallel/Distributed.cpp") ],
   [ ("nBuff","samples buffered per receiver","src/io/Receivers.h") ], [ "receiver CSVs" ], None )
p( "C08", "A crash leaves receiver output that is a prefix; a rerun is unaffected by leftovers",
   "If the processes are killed at any point, every receiver file that exists is a prefix of the file an undisturbed run produces, except possibly for a torn last row, and rerunning the same configuration over the left-behind files produces exactly the outputs of a clean run.",
   ["crash_points","schedules"], "all crash points (between any two I/O operations and at any scheduling point), all schedules, repeated crashes",
   "No test kills a run or starts one on top of old output.",
   [ "src/io/Receivers.cpp", "src/io/WaveField.cpp", "src/io/FileSystem.hpp", "src/io/Vtk.cpp", "src/io/ErrorNorms.cpp" ],
   [ ("touchOutput truncates, flush appends","src/io/Receivers.cpp"), ("createDir tolerates existing directories","src/io/FileSystem.hpp") ],
   [], [ "receiver CSVs", "VTK files", "error norm files" ], None )
p( "C09", "Output errors are never silent",
   "If writing receiver, wave field or error norm output fails (full disk, I/O error, missing permissions, failed directory creation), the run does not report success with incomplete output: either every file is complete, or the run ends with an error; short or interrupted writes alone never damage output.",
   ["fault_sequences"], "all positions and kinds of failing opens, directory creations, writes, short writes and interrupted writes",
   "No test makes an I/O call fail.",
   [ "src/io/Receivers.cpp", "src/io/Vtk.cpp", "src/io/ErrorNorms.cpp", "src/io/FileSystem.hpp", "submodules/visit_writer/visit_writer.cpp" ],
   [ ("stream state checks and EDGE_LOG_FATAL","src/io/Receivers.cpp") ], [], [ "exit status", "files" ], None )
p( "C10", "Wave field snapshots are complete and taken at the configured times",
   "Wave field output consists of exactly one snapshot at the start and one per elapsed output interval up to the end time (and none if the interval is not shorter than the simulated time), each holding every selected element exactly once over all ranks together with the solution of that time, for every synchronization interval, partitioning and schedule.",
   ["inputs","configurations","schedules"], "all ratios of output interval, maximum synchronization interval, time step and end time; partitions; schedules",
   "The wave field writer and the loop over synchronization points in main are not covered by any test.",
   [ "src/main.cpp", "src/io/WaveField.cpp", "src/io/Vtk.cpp", "submodules/visit_writer/visit_writer.cpp" ],
   [ ("loop over synchronization points","src/main.cpp") ], [], [ "VTK files", "sync points" ], HOOK )
p( "C11", "Shallow water solver: conservative, well balanced and equal to its reference scheme",
   "The shallow water solver conserves the water volume exactly (up to rounding and boundary outflow), leaves a lake at rest over any wet bathymetry unchanged, and advances every cell by the first-order f-wave finite volume update of its faces exactly once per time step, for every schedule and thread count.",
   ["inputs","schedules","configurations"], "initial water states, bathymetries, meshes, thread schedules",
   "The f-wave tests check single Riemann problems; the mesh update over faces with threads is untested.",
   [ "src/impl/swe/solvers/FiniteVolume.hpp", "src/impl/swe/solvers/Fwave.hpp", "src/impl/swe/inc/time/man_sched.inc", "src/impl/swe/inc/time/tgs_steps.inc", "src/impl/swe/setup.inc" ],
   [ ("net-updates per face, then update per element","src/impl/swe/solvers/FiniteVolume.hpp") ], [], [ "sync points" ], HOOK )
p( "C12", "Advection solver: exact for polynomials and conservative",
   "For a constant velocity, the advection solver of order O transports every polynomial of degree < O exactly (up to rounding) away from the boundary and conserves the total amount of every advected quantity in a periodic domain, for every partitioning, clustering and schedule.",
   ["inputs","configurations","schedules"], "meshes, polynomial data, velocities, rank and thread counts, schedules",
   "Advection tests evaluate single kernels; nothing advances a mesh or communicates.",
   [ "src/impl/advection/solvers", "src/impl/advection/kernels", "src/impl/advection/inc/time/man_sched.inc", "src/impl/advection/inc/time/tgs_steps.inc", "src/impl/advection/setup.inc" ],
   [ ("local/neigh updates","src/impl/advection/solvers/AderDg.hpp") ], [], [ "sync points" ], HOOK )
p( "C13", "Fused simulations do not influence each other",
   "Every one of the fused (concurrent) forward simulations yields the same solution and receiver output as running it alone, independent of what the other fused simulations contain.",
   ["inputs","configurations","schedules"], "initial values of the fused runs (including NaN-free but extreme ones), schedules, ranks",
   "Tests of fused kernels compare stored numbers for one element; whole fused runs are never compared to separate ones.",
   [ "src/impl/seismic/kernels", "src/impl/seismic/solvers/AderDg.hpp", "src/io/Receivers.cpp", "src/io/Vtk.cpp", "src/setups/InitialDofs.hpp" ],
   [ ("runs as fastest dimension of all mode-private data","src/data/Internal.hpp") ], [], [ "sync points", "receiver CSVs" ], HOOK )
p( "C14", "EDGE-V's communication structure is symmetric and complete",
   "For every mesh and partitioning the written mesh supplements describe matching channels on both sides: every face between two partitions appears exactly once as send and once as receive on each side, in the same order, with consistent time groups, so that each side receives exactly the data of its face neighbour.",
   ["inputs","configurations"], "meshes, element orders, numbers and shapes of partitions, clusterings",
   "The communication test has one hand-made mesh; consistency across partitions for arbitrary partitionings is not tested.",
   [ "tools/edge_v/src/mesh/Communication.cpp", "tools/edge_v/src/mesh/Partition.cpp", "tools/edge_v/src/main.cpp", "tools/edge_v/src/io/Hdf5.cpp" ],
   [ ("getStruct / channel sorting","tools/edge_v/src/mesh/Communication.cpp") ], [], [ "HDF5 supplements", "mesh files" ], None )
p( "C15", "Time step groups respect every element's stability limit",
   "For every mesh and velocity model, EDGE-V assigns each element to exactly one time group, the largest one whose time step does not exceed the element's own (CFL) limit and for which face-adjacent elements differ by at most one group; the written partitions hold every element, vertex and boundary face of the mesh exactly once, and groups, partitions and element order in the written files agree.",
   ["inputs","configurations","schedules"], "meshes, velocity models, numbers of groups, fundamental time step factors, thread schedules",
   "The group tests use a few fixed arrays; normalization over arbitrary meshes with threads is not tested.",
   [ "tools/edge_v/src/time/Groups.cpp", "tools/edge_v/src/time/Cfl.cpp", "tools/edge_v/src/mesh/Partition.cpp", "tools/edge_v/src/geom/Generic.cpp", "tools/edge_v/src/main.cpp" ],
   [ ("normalizeElTgs / getLoads / Cfl","tools/edge_v/src/time") ], [], [ "HDF5 supplements" ], None )
p( "C16", "EDGE-V output is complete, correct and independent of threads and output errors",
   "The files written by EDGE-V are identical for every thread schedule and thread count; element values derived from gridded bathymetry and displacements and the target edge lengths of mesh refinements follow their definition; a failing output operation never leaves EDGE-V reporting success with missing or incomplete output.",
   ["schedules","fault_sequences","inputs"], "thread interleavings of the parallel mesh derivations, thread counts, failing writes",
   "Unit tests run the parallel loops with the ambient schedule only and never fail an I/O call.",
   [ "tools/edge_v/src/main.cpp", "tools/edge_v/src/mesh/Mesh.cpp", "tools/edge_v/src/mesh/Refinement.cpp", "tools/edge_v/src/io/Hdf5.cpp", "tools/edge_v/src/io/Csv.cpp", "tools/edge_v/src/io/Grid.cpp", "tools/edge_v/src/io/BgMeshMsh4.cpp", "tools/edge_v/src/models/Model.cpp" ],
   [ ("OpenMP loops over entities","tools/edge_v/src/mesh/Mesh.cpp"), ("Hdf5 set/get","tools/edge_v/src/io/Hdf5.cpp") ], [], [ "HDF5 supplements", "mesh files" ], None )
p( "C17", "Every point source acts exactly once",
   "Each kinematic point source inside the mesh changes the solution by exactly its slip or moment rate integrated over the elapsed time, applied in exactly one element of one rank and once per time step, for every partitioning, clustering, worker distribution and schedule.",
   ["inputs","configurations","schedules"], "source positions (including faces and vertices shared between ranks), time histories, partitions, schedules",
   "The point source test applies one source in one element directly.",
   [ "src/impl/seismic/setups/PointSources.hpp", "src/impl/seismic/steps.inc", "src/impl/seismic/setup.inc", "src/data/SparseEntities.hpp" ],
   [ ("PointSources::init/apply","src/impl/seismic/setups/PointSources.hpp") ], [], [ "sync points" ], HOOK )
p( "C18", "Error norms are complete and independent of the parallelisation",
   "The reported L1, L2 and Linf error norms equal the norms of the difference between solution and reference solution over the whole domain, independent of rank count, partitioning, threads and schedule.",
   ["inputs","configurations","schedules"], "problems with known solution, rank and thread counts, schedules",
   "No test computes a norm over a mesh or over several ranks.",
   [ "src/io/ErrorNorms.cpp", "src/setups/ErrorNorms.hpp", "src/impl/seismic/fin.inc", "src/impl/advection/fin.inc" ],
   [ ("global reductions","src/impl/seismic/fin.inc") ], [], [ "error norm XML" ], HOOK )
p( "C19", "Elastic waves in closed domains keep conserved quantities and never gain energy",
   "Without sources, the elastic solver conserves total momentum in periodic domains and never increases the total elastic energy with periodic, free-surface or outflow boundaries and heterogeneous materials, over whole runs, for every clustering, partitioning and schedule.",
   ["inputs","configurations","schedules"], "meshes, heterogeneous materials, initial states, boundary conditions, clusterings, partitions, schedules",
   "Flux solver tests check single matrices; global conservation over a run is not tested.",
   [ "src/impl/seismic/setups", "src/impl/seismic/solvers", "src/mesh/EdgeV.cpp" ],
   [ ("flux solvers and boundary handling","src/impl/seismic/solvers/AderDgInit.hpp") ], [], [ "sync points" ], HOOK )
p( "C20", "Failing allocations never lead to silently wrong results",
   "If an allocation of solver memory fails, the run ends with an error; it never continues to a normal end with different results.",
   ["fault_sequences"], "every failing allocation of a run",
   "No test makes an allocation fail.",
   [ "src/data/common.hpp", "src/data/Dynamic.cpp", "src/data/Internal.hpp" ], [ ("check of the allocator's return value","src/data/common.hpp") ], [], [ "exit status", "sync points" ], HOOK )
p( "C21", "Geometry pre- and postprocessing functions (EDGEcut, EDGEpre) are correct",
   "EDGEcut's surface processing and EDGEpre's generated matrices are mathematically correct for every input.",
   ["inputs"], "all inputs of the sequential tools", "Sequential numerical code tested on samples only.",
   [ "tools/edge_cut/src", "tools/edge_pre/edge_pre" ], [ ("sequential algorithms","tools/edge_cut/src") ] )
with open( os.path.join( os.path.dirname( os.path.abspath( __file__ ) ), "..", "properties.jsonl" ), "w" ) as f:
    for x in P: f.write( json.dumps( x ) + "\n" )
