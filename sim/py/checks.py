# The checks: for every property the cases and schedules that are searched and the judgement of one simulation.
import json, math, os, random, shutil
import numpy as np
import basis, cases, gen, h5, orc, poly
from engine import Fail, Run, key, must_ok, schedule

QUICK = 'quick'
def copy( o ): return json.loads( json.dumps( o ) )

class Check:
    configs = { 'quick': [], 'thorough': [] }
    n = { 'quick': 100, 'thorough': 2000 }
    limit = { 'quick': 300, 'thorough': 3600 }
    distinct = 'sched'
    rule = 'simulated executions whose sequence of scheduling decisions (rank, thread, slice length) differs from all others.'
    technique = 'deterministic simulation with fault injection'
    def tasks( self, seed, tier ):
        i = 0
        while i < self.n[tier]:
            rng = random.Random( f'{seed}/{type(self).__name__}/{i}' ); yield self.task( rng, tier, i ); i += 1

class Schedules( Check ):
    """a pool of cases; every case is run under several random schedules and compared with its undisturbed run"""
    per_case = 6
    def tasks( self, seed, tier ):
        nm = type( self ).__name__; i = 0; progs = self.configs[tier]
        ncase = max( 1, self.n[tier]//self.per_case ); case = {}
        order = [ ( c, k ) for g in range( 0, ncase, 8 ) for k in range( self.per_case ) for c in range( g, min( g+8, ncase ) ) ]
        for c, k in order:
            if c not in case: case[c] = self.case( random.Random( f'{seed}/{nm}/case/{c}' ), progs[ c % len( progs ) ], tier, c )
            rng = random.Random( f'{seed}/{nm}/{c}/{k}' )
            yield { 'case': case[c], 'var': self.variation( rng, case[c], tier ) }
    def variation( self, rng, case, tier ): return schedule( rng, case['ev']['parts'] )
    def judge( self, ctx, t, devs=None, devs_out=None ):
        ref = ctx.ref( t['case'] )
        r = ctx.edge( t['case'], t['var'], devs, devs_out )
        try: self.compare( ctx, t, ref, r )
        finally: ctx.drop( r )
    def compare( self, ctx, t, ref, r ):
        must_ok( r ); orc.same( ref, r )

# ------------------------------------------------------------------ C01
class C01( Schedules ):
    """Random jobs under random schedules, thread counts, message delays, stalls and partitions; everything written and every synchronization point is compared bit by bit with the undisturbed run."""
    configs = { 'quick': [ 'el_tria3_o3', 'el_tet4_o2', 'el_tria3_o2_c2', 'ad_tria3_o3' ], 'thorough': [ 'el_tria3_o3', 'el_tet4_o2', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'el_tet4_o3', 've_tria3_o2', 'ad_tria3_o3', 'ad_tet4_o2', 'el_tet4_o2_f32' ] }
    n = { 'quick': 420, 'thorough': 8000 }
    def case( self, rng, prog, tier, i ):
        return cases.seis( rng, prog, wf=rng.random() < 0.5, groups=rng.choice( [ 1, 2, 2, 3, 3, 4 ] ) ) if prog[:2] != 'ad' else cases.adv( rng, prog, wf=rng.random() < 0.5 )

# ------------------------------------------------------------------ C02
class C02( Schedules ):
    """Random jobs under random schedules with stalls and partitions that end; all ranks must reach all synchronization points and terminate within a bounded number of steps."""
    configs = { 'quick': [ 'el_tria3_o2', 'el_tria3_o3', 'ad_tria3_o3', 'swe_quad4r_c1' ], 'thorough': [ 'el_tria3_o2', 'el_tria3_o3', 'el_tet4_o2', 'el_quad4r_o2', 'ad_tria3_o3', 'ad_tet4_o2', 'swe_quad4r_c1', 'swe_tria3_c1', 've_tria3_o2' ] }
    n = { 'quick': 480, 'thorough': 9000 }
    def case( self, rng, prog, tier, i ):
        if prog[:2] == 'ad': return cases.adv( rng, prog, size='s' )
        if prog[:3] == 'swe': return cases.swe( rng, prog, size='s' )
        return cases.seis( rng, prog, size=rng.choice( [ 's', 'm' ] ), parts=rng.choice( [ 1, 2, 3, 4, 5, 5 ] ), groups=rng.choice( [ 1, 2, 3, 4, 5 ] ), recv=rng.random() < 0.3 )
    def variation( self, rng, case, tier ):
        v = schedule( rng, case['ev']['parts'], clk=True )
        # longer and more stalls and partitions; progress is required once they end
        if rng.random() < 0.5:
            p = case['ev']['parts']; v['stalls'] = ''.join( '%d,%d,%d,%d;' % ( rng.randrange( p ), rng.choice( [ -1, 0, 0, 1, 2 ] ), t0, t0 + rng.choice( [ 100000, 5000000, 100000000 ] ) ) for t0 in [ rng.randrange( 1, 60000000 ) for _ in range( rng.randint( 1, 4 ) ) ] )
        for r in range( case['ev']['parts'] ):
            if rng.random() < 0.4: v['threads%d' % r] = rng.choice( [ 1, 2, 3, 4, 6 ] )
        return v
    def compare( self, ctx, t, ref, r ):
        res = r.res
        if res['status'] == 'ok':
            a, b = orc.syncs( ref ), orc.syncs( r )
            if [ x[:4] for x in a ] != [ x[:4] for x in b ]: raise Fail( 'sync-points', f'{len(b)} synchronization records instead of {len(a)} or at other times' )
            st = sum( int( s.split( ',' )[3] ) - int( s.split( ',' )[2] ) for k in ( 'stalls', 'partitions' ) for s in t['var'].get( k, '' ).split( ';' ) if s )
            lim = 60*ref.res['simticks'] + 10*st + res['disturb'] + 400000000
            if res['simticks'] > lim: raise Fail( 'slow', f"{res['simticks']} ticks, more than {lim} (undisturbed: {ref.res['simticks']})" )
        must_ok( r )

# ------------------------------------------------------------------ C04
class C04( Schedules ):
    """Random jobs on several ranks under random schedules and message delays; the simulated MPI monitors requests, buffers, matching, collectives and shutdown."""
    configs = { 'quick': [ 'el_tria3_o2', 'el_tet4_o2', 'ad_tria3_o3' ], 'thorough': [ 'el_tria3_o2', 'el_tria3_o3', 'el_tet4_o2', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'ad_tria3_o3', 'ad_tet4_o2', 've_tria3_o2' ] }
    n = { 'quick': 420, 'thorough': 8000 }
    def case( self, rng, prog, tier, i ):
        p = rng.choice( [ 2, 3, 4, 5, 5 ] )
        return cases.seis( rng, prog, parts=p, groups=rng.choice( [ 1, 2, 3, 4 ] ), recv=False, size=rng.choice( [ 's', 'm' ] ) ) if prog[:2] != 'ad' else cases.adv( rng, prog, parts=p )
    def variation( self, rng, case, tier ):
        v = schedule( rng, case['ev']['parts'] )
        if rng.random() < 0.7: v['msg_p'] = rng.choice( [ 0.3, 1.0 ] ); v['msg_max'] = rng.choice( [ 20, 40, 60 ] )
        return v

# ------------------------------------------------------------------ C06
class C06( Schedules ):
    """Random jobs with many rebalancings under arbitrary clock readings (zero, negative, jumping) and worker counts; everything written and every synchronization point is compared bit by bit with the undisturbed run."""
    configs = { 'quick': [ 'el_tria3_o2', 'el_tet4_o2' ], 'thorough': [ 'el_tria3_o2', 'el_tria3_o3', 'el_tet4_o2', 'el_quad4r_o2', 'el_tria3_o2_c2', 'ad_tria3_o3' ] }
    n = { 'quick': 360, 'thorough': 6000 }
    def case( self, rng, prog, tier, i ):
        if prog[:2] == 'ad': return cases.adv( rng, prog, sync='many' )
        c = cases.seis( rng, prog, sync='many', steps=( 12, 30 ), parts=rng.choice( [ 1, 1, 2, 3 ] ) )
        if rng.random() < 0.6: cases.sources( rng, c )
        return c
    def variation( self, rng, case, tier ):
        v = schedule( rng, case['ev']['parts'] ); v['threads'] = rng.choice( [ 2, 3, 4, 6, 8 ] )
        v['clk_p'] = rng.choice( [ 0.01, 0.1, 0.5, 1.0 ] )
        for r in range( case['ev']['parts'] ): v['clk_off%d' % r] = rng.choice( [ 0, 1, -10**9, 10**15 ] )
        return v

