# Evidence: what a check's run covered, as counted by the engine.
import json, os, time
REAL = [ 'EDGE: src/**/*.cpp of the working tree incl. main.cpp, scheduler, workers, communication, I/O, solvers (built with the simulated configurations below)', 'EDGE-V: tools/edge_v/src/**/*.cpp incl. main.cpp', 'EDGEpre: tools/edge_pre generates the matrices at build time', 'libhdf5, libmetis, pugixml, exprtk, easylogging (unmodified)' ]
STUB = [ 'MPI: in-process message passing with seeded delays, partitions, hazards detection (sim/net.cpp)', 'OpenMP runtime and threads: cooperative tasks, switch points at every memory access, scheduled by a seeded scheduler (sim/core.cpp)', 'clocks: simulated (sim/core.cpp)', 'file system calls: pass through to a scratch directory with seeded faults (sim/io.cpp)', 'gmsh API used by EDGE-V and EDGE: reader and writer of a text mesh format (sim/gmsh_stub.cpp)', 'malloc/posix_memalign of the programs: pass through with seeded failures' ]
def write( V, prop, tier, seed, mod, ctx, done, ts, tb, viol, replay ):
    s = ctx.st
    d = { 'sched': s['sched'], 'prog': s['prog'], 'states': s['states'] }[mod.distinct] if not hasattr( mod, 'count_distinct' ) else mod.count_distinct( ctx )
    n = len( d )
    e = { 'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round( ts + tb, 2 ), 'violations': len( viol ),
          'coverage': {
            'evaluations': s['runs'], 'distinct_nontrivial': n, 'rule': ' '.join( ( type( mod ).__doc__ or '' ).split() ) + ' Counted as distinct and non-trivial: ' + mod.rule,
            'samples': s['samples'][:12], 'judged_cases': done,
            'simulated_jobs_per_program': s['progs'], 'edge_v_runs': s['ev_runs'], 'outcomes': s['status'],
            'simulated_runs_per_hour': round( s['runs']/max( ts, 1e-3 )*3600 ), 'seeds_per_hour': round( done/max( ts, 1e-3 )*3600 ),
            'simulated_seconds': round( s['ticks']*1e-8, 3 ), 'context_switches': s['switches'],
            'faults_injected': s['faults'], 'distinct_interleavings': len( s['sched'] ), 'distinct_solution_states_at_sync_points': len( s['states'] ),
            'interleaving_measure': 'hash over the sequence (rank, thread, length in memory accesses) of scheduler decisions',
            'real_components': REAL, 'stubbed_components': STUB, 'configurations': mod.configs[tier], 'build_s': round( tb, 1 ), 'search_s': round( ts, 1 ) },
          'assumptions': [ 'threads switch only at (instrumented) memory accesses, atomics, volatile accesses, library and system calls; sequentially consistent memory', 'messages are neither lost nor duplicated (MPI guarantees), but delayed arbitrarily and reordered between channels', 'gmsh is replaced by a reader of the same mesh data' ] }
    if replay: e['coverage']['replay'] = replay
    e['coverage'].update( getattr( mod, 'extra', {} ) )
    os.makedirs( V + '/evidence', exist_ok=True )
    json.dump( e, open( f'{V}/evidence/{prop}.json', 'w' ), indent=1 )
