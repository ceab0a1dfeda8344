NOTE.update( {
 'C01': 'Seeded sample of schedules, thread counts and message delays of the real EDGE; bit-exact comparison with the undisturbed run of the same input.',
 'C02': 'Seeded sample of schedules with stalls and partitions that end; bounded progress and normal termination of all ranks.',
 'C04': 'Seeded sample; the simulated MPI tracks every request, buffer, tag and collective and reports any hazard or mismatch.',
 'C06': 'Seeded sample of clock behaviours (zero, negative, jumping) and worker counts; bit-exact comparison with the undisturbed run.',
 'C03': 'Seeded sample of problems, partitionings and schedules; every element, synchronization point and receiver compared with the same problem on one rank (1e-9 relative in double precision).',
 'C05': 'Seeded sample of polynomial solutions, graded meshes, clusterings, partitionings and schedules; exact solution as oracle in all elements the boundary has not influenced.',
 'C11': 'Seeded sample of bathymetries, meshes and schedules; independent finite volume reference, volume conservation, lake at rest. One rank and 32-bit only: that is all the code supports.',
 'C12': 'Seeded sample; exact polynomial solutions away from the boundary and conservation in periodic domains under random schedules and partitionings.',
 'C13': 'Seeded sample; every fused run compared with the same simulation alone, the others partly overflowing or not-a-number on purpose.',
 'C17': 'Seeded sample of sources (also on faces and vertices), partitionings and schedules; totals of all quantities equal the integrated sources, first step compared with the exact projection.',
 'C18': 'Seeded sample; norms recomputed from the simulated final solution and compared over rank counts.',
 'C19': 'Seeded sample; discrete energy never grows and momentum is conserved at every synchronization point of whole runs.',
 'C07': 'Seeded sample of receiver layouts (inside, on faces, vertices, outside), sampling rates, schedules; completeness, order and values against the simulated solution at every sampled time.',
 'C08': 'Seeded sample of crash points (any tick, any I/O operation, torn writes), repeated crashes and reruns over the leftovers; receivers compared as prefixes, reruns byte by byte.',
 'C09': 'Seeded sample of failing output operations by position, kind and file; success with incomplete output is a violation.',
 'C10': 'Seeded sample of intervals, time steps, partitionings and schedules; every snapshot compared with the solution at its synchronization point.',
 'C14': 'Seeded sample of meshes of all element types (periodic or not), partitionings, clusterings and schedules of the real EDGE-V; every channel compared face by face.',
 'C15': 'Seeded sample of meshes, velocity models, clusterings and schedules; the groups compared with an independent reference, elements next to a rounding boundary excepted.',
 'C16': 'Seeded sample of schedules, thread counts and failing output operations; byte-wise comparison with the undisturbed run, derived values with an independent reference.',
 'C20': 'Seeded sample of failing allocations; a normal end with other results than the undisturbed run is a violation.',
} )
