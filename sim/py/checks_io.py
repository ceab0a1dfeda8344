# Checks of what EDGE writes: receivers, wave fields, crashes, output errors, failing allocations.
import bisect, glob, json, math, os, random, re, shutil, struct
import numpy as np
import basis, cases, gen, h5, mesh, orc, poly
from engine import Fail, Run, key, must_ok, schedule
from checks import Check, Schedules, copy
from checks_num import Judged, Poly, f32, sync_times, tol

# ------------------------------------------------------------------ C07
def sample_times( freq, end ):
    o = []; t = 0.0
    while t < end-1e-9: o.append( t ); t += freq
    return o
def ambiguous( freq, end ):
    """a sample close to the end time"""
    return abs( end/freq - round( end/freq ) ) < 1e-4
def owners( f, el, x ):
    """elements which hold the point (several on faces), with reference coordinates"""
    o = [];
    for k, v in f.items():
        c = v[1]; lo, hi = c.min( 0 ), c.max( 0 )
        if any( x[i] < lo[i]-1e-6 or x[i] > hi[i]+1e-6 for i in range( len( x ) ) ): continue
        xi = basis.to_ref( el, c, np.array( [ x ] ) )[0]
        u = list( xi ) + ( [ 1-sum( xi ) ] if el in ( 'tria3', 'tet4' ) else [ 1-y for y in xi ] )
        if min( u ) > -1e-6: o.append( ( k, xi, min( u ) ) )
    return o
def header( d, n ):
    b = orc.recvs( d )[n][0][1].decode(); h = {}
    for l in b.split( '\n' ):
        if l.startswith( '# ' ) and ': ' in l: a, v = l[2:].split( ': ', 1 ); h[a] = v
    return h
class C07( Poly ):
    """Runs with receivers anywhere in (also on faces, vertices and outside of) the mesh, with few and with many samples between flushes; rows and times must be the sampled ones, values those of the exact solution or of the solution at synchronization points."""
    configs = { 'quick': [ 'el_tria3_o2', 'el_tet4_o2', 'el_quad4r_o2' ], 'thorough': [ 'el_tria3_o2', 'el_tria3_o3', 'el_tet4_o2', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'el_tet4_o2_f32', 've_tria3_o2' ] }
    n = { 'quick': 1000, 'thorough': 12000 }; per_case = 4
    def points( self, rng, m ):
        vs, els, _ = cases.geom( m ); d = gen.DIM[m['el']]; o = []
        for i in range( rng.choice( [ 1, 3, 6, 12 ] ) ):
            k = rng.random(); e = els[ rng.randrange( len( els ) ) ]
            if o and k < 0.15: p = [ x for x in o[-1][1] ]                                                    # the same place twice
            elif k < 0.6: p = cases.point( rng, m, 0.0 )
            elif k < 0.7: p = list( vs[ rng.choice( e ) ][:d] )                                              # on a vertex
            elif k < 0.85: f = rng.choice( gen.FACES[m['el']] ); p = [ sum( vs[e[v]][j] for v in f )/len( f ) for j in range( d ) ]  # on a face
            elif k < 0.93: p = [ sum( vs[v][j] for v in e )/len( e ) for j in range( d ) ]
            else: p = [ x + rng.choice( [ -1, 1 ] )*rng.uniform( 0.0, 0.2 )*( b[1]-b[0] ) for x, b in zip( cases.point( rng, m ), cases.box( m ) ) ]
            o.append( ( 'r%d' % i, p ) )
        return o
    def variation( self, rng, case, tier ):
        v = schedule( rng, case['ev']['parts'], io=True )
        if case.get( 'flush' ):
            # a slow disk while the buffers are written, other threads are preempted in the midst of their work
            v.pop( 'dev_to', None ); v.pop( 'dev_from', None ); v.update( { 'threads': rng.choice( [ 3, 4, 5, 6 ] ), 'strat': rng.choice( [ 3, 4, 5, 5, 5, 5 ] ), 'prio_gap': rng.choice( [ 50, 200, 2000 ] ), 'victim_len': 5000, 'p_victim': 1.0, 'p_stick': 0.9, 'slice_lo': rng.choice( [ 12, 18, 18, 22 ] ), 'io_p': rng.choice( [ 0.5, 1.0 ] ), 'io_max': rng.choice( [ 14, 16, 18 ] ) } ); v['slice_hi'] = v['slice_lo'] + 8
        return v
    def flush_case( self, rng, prog ):
        """coarse elements sample almost as often as the buffers allow while finer time groups progress several times"""
        eq, el, order, cr = cases.info( prog ); d = gen.DIM[el]
        while True:
            c = cases.seis( rng, prog, recv=False, size='s', groups=rng.choice( [ 3, 4 ] ), steps=( 40, 60 ), sync=10.0, parts=rng.choice( [ 1, 1, 1, 2 ] ), hetero=False, grading=[ [1,8,8] ]*d, jitter=0.1, bnd=105 )
            c['ev']['fun_dt'] = 1.0; e = c['edge']; mat = e['vel'][0][1]; vp = math.sqrt( ( mat[1]+2*mat[2] )/mat[0] ); dt = cases.dts( c['mesh'], order, vp ); dm = min( dt )
            g = [ min( c['ev']['groups']-1, int( math.log2( x/dm*1.0001 ) ) ) for x in dt ]; big = max( g )
            if big >= 2: break
        e['recv'] = { 'dir': 'recv', 'freq': dm*2**big/rng.choice( [ 38.1, 43.3, 45.0 ] ), 'pts': [] }; e['end'] = dm*2**big*rng.choice( [ 10.3, 20.3 ] )
        while ambiguous( e['recv']['freq'], e['end'] ): e['recv']['freq'] *= 1.003
        vs, els, _ = cases.geom( c['mesh'] ); ks = [ k for k in range( len( els ) ) if g[k] == big ]; rng.shuffle( ks )
        for n, k in enumerate( ks[:15] ): e['recv']['pts'].append( ( 'r%d' % n, [ sum( vs[v][j] for v in els[k] )/len( els[k] ) for j in range( d ) ] ) )
        c['flush'] = 1; return c
    def case( self, rng, prog, tier, i ):
        m = rng.random()
        if i%3 != 0: return self.flush_case( rng, prog )
        if m < 0.45 and prog[:2] == 'el':
            c = self.poly_case( rng, prog ); k = rng.choice( [ 3.3, 11.7, 60.3, 150.7 ] )
        elif m < 0.75:
            c = cases.seis( rng, prog, recv=False, sync=rng.choice( [ 'few', 'many' ] ), size=rng.choice( [ 's', 'm' ] ), groups=rng.choice( [ 1, 2, 3 ] ), steps=( 6, 30 ) ); k = None
        else:
            # many samples per receiver: the buffers have to be flushed while the simulation runs
            d = gen.DIM[cases.info( prog )[1]]
            c = cases.seis( rng, prog, recv=False, size='s', groups=rng.choice( [ 2, 3, 3, 4 ] ), steps=( 32, 60 ), sync=rng.choice( [ None, 10.0, 'few' ] ), parts=rng.choice( [ 1, 1, 2 ] ), hetero=False, grading=[ rng.choice( [ [1,4,4], [1,8,8], [1,3,9] ] ) for _ in range( d ) ], jitter=0.1 ); k = rng.choice( [ 400.7, 700.3, 1000.3 ] ); c['many'] = 1
        e = c['edge']
        if k is None: e['recv'] = { 'dir': 'recv', 'freq': e['sync']/rng.choice( [ 1, 1, 2, 5 ] ) }
        else: e['recv'] = { 'dir': rng.choice( [ 'recv', 'out/deep/recv' ] ), 'freq': e['end']/k }
        while ambiguous( e['recv']['freq'], e['end'] ): e['recv']['freq'] *= 1.01
        # no more than the buffers hold within one time step of the largest group
        if k: 
            w = cases.dts( c['mesh'], cases.info( prog )[2], 1.0 ); vp = max( math.sqrt( ( v[1]+2*v[2] )/v[0] ) for _, v in e['vel'] )
            e['recv']['freq'] = max( e['recv']['freq'], max( w )/vp/45 )
            while ambiguous( e['recv']['freq'], e['end'] ): e['recv']['freq'] *= 1.01
        e['recv']['pts'] = self.points( rng, c['mesh'] )
        return c
    def verify( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; eq, el, order, cr = cases.info( prog ); nq = cases.nq( prog ); d = gen.DIM[el]; e = c['edge']; rc = e['recv']
        R = orc.recvs( r.dir, rc['dir'] ); names = [ n for n, _ in rc['pts'] ]; want = sample_times( rc['freq'], e['end'] )
        for n in R:
            if n not in names: raise Fail( 'receiver-files', f'unknown receiver file {n}' )
        tt, f0 = orc.field( r, 0, prog ); tm = sync_times( e ); st = orc.steps( r ); rows = {}
        for n, x in rc['pts']:
            l = R.get( n, [] )
            if len( l ) != 1: raise Fail( 'receiver-files', f'receiver {n} has {len(l)} files (ranks {[ y[0] for y in l ]})' )
            hd, rs = orc.rows( l[0][1] )
            if not l[0][1].endswith( b'\n' ): raise Fail( 'receiver-rows', f'receiver {n}: the last row is incomplete' )
            if hd != 'time,' + ','.join( f'Q{q}_C{k}' for q in range( nq ) for k in range( cr ) ): raise Fail( 'receiver-rows', f'receiver {n} has the columns {hd}' )
            try: v = orc.vals( rs )
            except ValueError: raise Fail( 'receiver-rows', f'receiver {n} has malformed rows' )
            if len( v ) != len( want ): raise Fail( 'receiver-rows', f'receiver {n} has {len(v)} rows instead of {len(want)}' )
            if v.ndim != 2 or v.shape[1] != 1+nq*cr: raise Fail( 'receiver-rows', f'receiver {n}: {v.shape} values' )
            D = np.abs( v[:,0]-np.array( want ) ); i = int( np.argmax( D ) )
            if not D[i] <= 1.1e-6 + ( 1e-6*want[i] if cases.prec( prog ) == 4 else 0 ): raise Fail( 'receiver-rows', f'receiver {n}: row {i} has the time {v[i,0]} instead of {want[i]:.6f}' )
            rows[n] = v[:,1:].reshape( len( v ), nq, cr )
            if not np.all( np.isfinite( rows[n] ) ): raise Fail( 'not-finite', f'receiver {n}: not finite' )
            h = header( r.dir, n ) if rc['dir'] == 'recv' else {}
            if h.get( 'receiver name', n ) != n: raise Fail( 'receiver-header', f'receiver {n} is labelled {h}' )
        judged = 0; rt = 2e-6 if cases.prec( prog ) == 8 else 1e-3
        W = np.array( want )
        if 'sol' in c:
            sol = self.solution( c ); cl = self.clean( ctx, c, ctx.prep( c ) )
            for n, x in rc['pts']:
                ow = owners( f0, el, x )
                if not ow: continue
                # the first synchronization point at or after a sample decides whether the boundary may have influenced it
                ok = np.array( [ all( o[0] in cl[ min( bisect.bisect_left( tm, s-1e-9 ), len( tm )-1 ) ] for o in ow ) for s in want ] )
                ok &= np.array( [ all( o[0] in cl[ min( bisect.bisect_right( tm, s+1e-9 ), len( tm )-1 ) ] for o in ow ) for s in want ] )
                if not np.any( ok ): continue
                judged += int( np.sum( ok ) ); X = np.array( [ x ]*len( want ) )
                for cc in range( cr ):
                    for q in range( nq ):
                        E = poly.at( sol[cc][q], X, W ); sc = max( 1e-3, np.max( np.abs( E ) ) ); D = np.where( ok, np.abs( E-rows[n][:,q,cc] )/sc, 0 ); i = int( np.argmax( D ) )
                        if not D[i] <= rt: raise Fail( 'receiver-value', f'receiver {n}, t={want[i]:.6g}: quantity {q} is {rows[n][i,q,cc]:.8g}, the exact solution {E[i]:.8g}' )
        # samples at synchronization points equal the solution there
        hits = [ ( s, i ) for s, ts in zip( st, tm ) for i in [ int( round( ts/rc['freq'] ) ) ] if i < len( want ) and abs( want[i]-ts ) < 1e-10*max( 1, ts ) ]
        if cases.prec( prog ) == 4: hits = hits[:1]
        hits = hits[:6]
        for s, i in hits:
            if s == 0: f = f0
            else: _, f = orc.field( r, s, prog )
            sc = np.max( np.abs( np.array( [ v[0][:,0] for v in f.values() ] ) ), axis=0 ); sc = np.maximum( sc, 1e-3*np.max( sc ) + 1e-30 )
            for n, x in rc['pts']:
                ow = owners( f, el, x )
                if not ow: continue
                V = [ np.einsum( 'm,qmc->qc', basis.evaluate( el, order-1, np.array( [ o[1] ] ) )[0], f[o[0]][0] ) for o in ow ]
                D = min( np.max( np.abs( v-rows[n][i] )/( sc + np.abs( v ) ) ) for v in V ); judged += 1
                if not D <= rt: raise Fail( 'receiver-value', f'receiver {n}, t={want[i]:.6g}: holds {rows[n][i,:,0].tolist()}, the solution at this synchronization point is {V[0][:,0].tolist()}' )
        with ctx.lock: self.extra = getattr( self, 'extra', { 'judged_samples': 0 } ); self.extra['judged_samples'] += judged

# ------------------------------------------------------------------ outputs of a run
OUT = lambda d: orc.files( d, raw=True )
def compare_files( a, b, what, prefix=False ):
    """every file of b equals that of a (or is a prefix of it)"""
    for p in sorted( b ):
        if p not in a: raise Fail( 'unknown-file', f'{what}: unexpected file {p}' )
        if prefix:
            if not a[p].startswith( b[p] ): raise Fail( 'not-a-prefix', f'{what}: {p} is not a prefix of the undisturbed output: ' + orc.diff( a[p], b[p] ) )
        elif a[p] != b[p]: raise Fail( 'file-content', f'{what}: {p} differs from the undisturbed output: ' + orc.diff( a[p], b[p] ) )
    if not prefix:
        m = sorted( set( a )-set( b ) )
        if m: raise Fail( 'missing-file', f'{what}: {len(m)} files are missing, e.g. {m[0]}' )
def out_case( rng, prog, small=True ):
    """a short run with all kinds of output"""
    kw = dict( parts=rng.choice( [ 1, 1, 2, 3 ] ), size='s', steps=( 6, 16 ), groups=rng.choice( [ 1, 2, 3 ] ) )
    c = cases.seis( rng, prog, recv=False, wf=rng.random() < 0.7, err=rng.random() < 0.6, sync=rng.choice( [ None, 'few' ] ), **kw )
    e = c['edge']
    if rng.random() < 0.85 or not ( e.get( 'wf' ) or e.get( 'err' ) ):
        # up to several flushes per receiver
        k = rng.choice( [ 3.3, 30.7, 270.3, 400.3 ] ); vp = min( math.sqrt( ( v[1]+2*v[2] )/v[0] ) for _, v in e['vel'] )
        f = max( e['end']/k, max( cases.dts( c['mesh'], cases.info( prog )[2], vp ) )/45 )
        e['recv'] = { 'dir': rng.choice( [ 'recv', 'o/recv' ] ), 'freq': f, 'pts': [ ( 'r%d' % i, cases.point( rng, c['mesh'] ) ) for i in range( rng.randint( 1, 5 ) ) ] }
    if e.get( 'wf' ) and rng.random() < 0.5: e['wf']['int'] = e['end']/rng.choice( [ 5.3, 9.7 ] )
    return c
class Faulty( Schedules ):
    configs = { 'quick': [ 'el_tria3_o2', 'el_tet4_o2' ], 'thorough': [ 'el_tria3_o2', 'el_tria3_o3', 'el_tet4_o2', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 've_tria3_o2' ] }
    n = { 'quick': 500, 'thorough': 9000 }; per_case = 10
    def case( self, rng, prog, tier, i ): return out_case( rng, prog )
    def variation( self, rng, case, tier ):
        v = schedule( rng, case['ev']['parts'], io=rng.random() < 0.3 ) if rng.random() < 0.5 else { 'threads': rng.choice( [ 1, 2, 3 ] ), 'seed': rng.randrange( 1 << 30 ) }
        v.pop( 'cfg', None ); v['pos'] = rng.random(); v['kind'] = self.kind( rng ); return v
    def judge( self, ctx, t, devs=None, devs_out=None ):
        ref = ctx.ref( t['case'], { 'snap': None } ); v = dict( t['var'] ); pos, kind = v.pop( 'pos' ), v.pop( 'kind' )
        self.fault( v, kind, pos, ref.res )
        r = ctx.edge( t['case'], v, devs, devs_out )
        try: self.outcome( ctx, t, ref, r, kind )
        finally: ctx.drop( r )
    def ops( self, res ): return max( 1, res['counts'].get( 'io_ops', 0 ) )

# ------------------------------------------------------------------ C08
class C08( Faulty ):
    """Runs killed at random points (scheduling steps, I/O operations, midst of a write), judged by what is left behind, then repeated over the left-behind files."""
    def kind( self, rng ): return rng.choice( [ 'tick', 'io', 'io', 'torn', 'torn' ] )
    def fault( self, v, kind, pos, res ):
        if kind == 'tick': v['crash_tick'] = 1 + int( pos*res['ticks'] )
        else:
            v['crash_io'] = int( pos*self.ops( res ) )
            if kind == 'torn': v['torn'] = round( ( pos*7919 ) % 1.0, 3 )
    def outcome( self, ctx, t, ref, r, kind ):
        if r.res['status'] == 'ok': return orc.same( ref, r )   # the schedule was shorter
        if r.res['status'] != 'crash': must_ok( r, 'run until the crash' )
        a = OUT( ref.dir ); b = OUT( r.dir )
        compare_files( { k: v for k, v in a.items() if k.endswith( '.csv' ) }, { k: v for k, v in b.items() if k.endswith( '.csv' ) }, 'after the crash', True )
        for k in b:
            if k not in a: raise Fail( 'unknown-file', f'unexpected file {k} after the crash' )
        # again, in the directory of the crashed run
        v = { k: x for k, x in t['var'].items() if k not in ( 'pos', 'kind' ) }; v['seed'] = v.get( 'seed', 0 ) + 1
        r2 = ctx.edge( t['case'], v, d=r.dir ); must_ok( r2, 'run over the left-behind files' )
        compare_files( a, OUT( r.dir ), 'repeated after the crash' )

# ------------------------------------------------------------------ C09
class C09( Faulty ):
    """Runs whose output operations fail at random points; a run that reports success has written everything."""
    def kind( self, rng ): return rng.choice( [ 'enospc', 'enospc', 'eio', 'eacces', 'short', 'eintr' ] ) + rng.choice( [ '', '+' ] ) + rng.choice( [ '', '', ',recv', ',wf', ',err' ] )
    def fault( self, v, kind, pos, res ):
        k, _, m = kind.partition( ',' ); s = k.endswith( '+' ); k = k.rstrip( '+' )
        v['io_faults'] = '%d,%s,%d,%s;' % ( int( pos*self.ops( res ) ) if not ( m or pos < 0.1 ) else int( pos*self.ops( res )/3 ), k, s or bool( m ), m )
    def outcome( self, ctx, t, ref, r, kind ):
        st = r.res['status']; hit = any( r.res['counts'].get( 'io_' + k ) for k in ( 'enospc', 'eio', 'eacces', 'short', 'eintr' ) )
        if kind[:5] in ( 'short', 'eintr' ) or not hit: must_ok( r, 'run with short or interrupted writes' if hit else 'run without fault' )
        elif st in ( 'deadlock', 'noprogress', 'tickcap', 'wall' ): raise Fail( 'hang', f'the run does not end after a failed output operation ({st}: {r.res["msg"]})' )
        if st == 'ok': compare_files( OUT( ref.dir ), OUT( r.dir ), 'the run reported success, but' )

# ------------------------------------------------------------------ C20
class C20( Faulty ):
    """Runs in which an allocation of aligned memory fails; a run that reports success has the same results."""
    configs = { 'quick': [ 'el_tria3_o2', 'el_tet4_o2', 'ad_tria3_o3', 'swe_quad4r_c1' ], 'thorough': [ 'el_tria3_o2', 'el_tria3_o3', 'el_tet4_o2', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 've_tria3_o2', 'ad_tria3_o3', 'ad_tet4_o2', 'swe_quad4r_c1' ] }
    def case( self, rng, prog, tier, i ):
        if prog[:2] == 'ad': return cases.adv( rng, prog, parts=rng.choice( [ 1, 2, 3 ] ), size='s', wf=True )
        if prog[:3] == 'swe': return cases.swe( rng, prog, size='s' )
        c = out_case( rng, prog )
        if rng.random() < 0.5: cases.sources( rng, c )
        return c
    def kind( self, rng ): return 'alloc'
    def fault( self, v, kind, pos, res ): v['fail_alloc'] = int( pos*res['counts'].get( 'allocs', 1 ) )
    def outcome( self, ctx, t, ref, r, kind ):
        st = r.res['status']
        if st in ( 'deadlock', 'noprogress', 'tickcap', 'wall' ): raise Fail( 'hang', f'the run does not end after a failed allocation ({st}: {r.res["msg"]})' )
        if st == 'ok': orc.same( ref, r )

# ------------------------------------------------------------------ C10
NVT = { 'tria3': ( 5, 3 ), 'quad4r': ( 9, 4 ), 'tet4': ( 10, 4 ), 'hex8r': ( 12, 8 ) }
class Vtk:
    """strict reader of the legacy format"""
    def __init__( self, b, what ):
        self.b = b; self.p = 0; self.what = what
        if self.line() != '# vtk DataFile Version 2.0': self.bad( 'no header' )
        self.line(); k = self.line()
        if k not in ( 'ASCII', 'BINARY' ): self.bad( f'kind {k}' )
        self.bin = k == 'BINARY'
        if self.line() != 'DATASET UNSTRUCTURED_GRID': self.bad( 'no grid' )
        n = int( self.words( 'POINTS', 3 )[0] ); self.pts = self.nums( 3*n, 'f' ).reshape( n, 3 )
        w = self.words( 'CELLS', 3 ); nc, m = int( w[0] ), int( w[1] ); self.cells = self.nums( m, 'i' )
        if int( self.words( 'CELL_TYPES', 2 )[0] ) != nc: self.bad( 'number of cell types' )
        self.types = self.nums( nc, 'i' ); self.n = nc
        if int( self.words( 'CELL_DATA', 2 )[0] ) != nc: self.bad( 'number of cell data' )
        self.vars = []; left = None
        while True:
            l = self.next()
            if l is None: break
            w = l.split()
            if w[0] == 'SCALARS': 
                if self.next() != 'LOOKUP_TABLE default': self.bad( 'lookup table' )
                self.vars.append( ( w[1], self.nums( nc, 'f' ) ) )
            elif w[0] == 'FIELD': left = int( w[2] )
            elif w[0] in ( 'POINT_DATA', ): break
            else:
                if len( w ) != 4 or int( w[2] ) != nc: self.bad( f'field {l}' )
                self.vars.append( ( w[0], self.nums( nc, 'f' ) ) ); left -= 1
        if left not in ( None, 0 ): self.bad( f'{left} fields are missing' )
    def bad( self, t ): raise Fail( 'vtk-format', f'{self.what}: {t} (byte {self.p} of {len(self.b)})' )
    def line( self ):
        e = self.b.find( b'\n', self.p )
        if e < 0: self.bad( 'truncated' )
        l = self.b[self.p:e].decode( errors='replace' ).strip(); self.p = e+1; return l
    def next( self ):
        while self.p < len( self.b ):
            if self.b.find( b'\n', self.p ) < 0 and not self.b[self.p:].strip(): return None
            l = self.line()
            if l: return l
        return None
    def words( self, k, n ):
        l = self.next()
        if l is None or l.split()[0] != k or len( l.split() ) < n: self.bad( f'{k} expected, found {l}' )
        return l.split()[1:]
    def nums( self, n, t ):
        if self.bin:
            if self.p + 4*n > len( self.b ): self.bad( 'truncated' )
            v = np.frombuffer( self.b, '>' + t + '4', n, self.p ); self.p += 4*n; return v
        o = []
        while len( o ) < n:
            l = self.next()
            if l is None: self.bad( 'truncated' )
            try: o += [ float( x ) for x in l.split() ]
            except ValueError: self.bad( f'number expected, found {l[:60]}' )
        if len( o ) != n: self.bad( f'{len(o)} numbers instead of {n}' )
        return np.array( o, 'f4' if t == 'f' else 'i8' )
class C10( Judged ):
    """Runs with wave field output (whole mesh or an arbitrary part of it) at random intervals; the written files of all ranks are compared with the solution at the synchronization points."""
    configs = { 'quick': [ 'el_tria3_o2', 'el_tet4_o2', 'el_hex8r_o2', 'swe_quad4r_c1', 'ad_tria3_o3' ], 'thorough': [ 'el_tria3_o2', 'el_tria3_o3', 'el_tet4_o2', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'el_tet4_o2_f32', 've_tria3_o2', 'ad_tria3_o3', 'ad_tet4_o2', 'swe_quad4r_c1' ] }
    n = { 'quick': 500, 'thorough': 8000 }
    def case( self, rng, prog, tier, i ):
        kw = dict( wf=True, size=rng.choice( [ 's', 's', 'm' ] ), sync=rng.choice( [ None, 'few', 'many' ] ) )
        if prog[:3] == 'swe': c = cases.swe( rng, prog, **kw )
        elif prog[:2] == 'ad': c = cases.adv( rng, prog, **kw )
        else: c = cases.seis( rng, prog, recv=rng.random() < 0.3, **kw )
        e = c['edge']; w = e['wf']; w['int'] = e['end']/rng.choice( [ 0.7, 1.05, 1.7, 2, 3, 4, 4.6, 9.3, 17.7 ] )
        if rng.random() < 0.2 and e.get( 'sync' ): w['int'] = e['sync']*rng.choice( [ 1, 2, 0.5, 1/3 ] )
        if abs( w['int']/e['end'] - 1 ) < 1e-3: w['int'] *= 1.01
        w['file'] = rng.choice( [ 'wf/w', 'a/b/wave' ] )
        if rng.random() < 0.6:
            d = gen.DIM[c['mesh']['el']]; e['sp_els'] = []
            for ty in rng.choice( [ [ 1 << 20 ], [ 1 << 20, 1 << 21 ], [ 1 << 20, 3 << 20 ] ] ):
                hs = []
                for _ in range( rng.choice( [ 1, 1, 2 ] ) ): hs.append( [ cases.point( rng, c['mesh'], 0.1 ), [ round( rng.uniform( -1, 1 ), 3 ) for _ in range( d ) ] ] )
                e['sp_els'].append( [ hs, ty ] )
            w['sp'] = rng.choice( [ 1 << 20, 1 << 20, 1 << 21, 3 << 20 ] )
        return c
    def selected( self, c ):
        """keys of the elements which are written; None if not decidable due to rounding"""
        e = c['edge']; vs, els, _ = cases.geom( c['mesh'] ); o = set(); sp = e['wf'].get( 'sp' )
        for el in els:
            k = orc.ekey( [ vs[v] for v in el ] )
            if not sp: o.add( k ); continue
            t = 0
            for hs, ty in e['sp_els']:
                D = [ sum( n[i]*( vs[v][i]-p[i] ) for i in range( len( p ) ) ) for v in el for p, n in hs ]
                if min( abs( x ) for x in D ) < 1e-9: return None
                if min( D ) > 0: t |= ty
            if t & sp == sp: o.add( k )
        return o
    def verify( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; eq, el, order, cr = cases.info( prog ); nq = cases.nq( prog ); e = c['edge']; w = e['wf']; ty, nv = NVT[el]
        sel = self.selected( c )
        if sel is None: return
        want = [ 0.0 ] if w['int'] < e['end'] else []
        while want and len( want )*w['int'] <= e['end']*( 1+1e-10 ): want.append( len( want )*w['int'] )
        tm = sync_times( e ); st = orc.steps( r )
        D, base = w['file'].rsplit( '/', 1 ); got = {}
        for f in glob.glob( f'{r.dir}/{D}/*/*' ):
            m = re.fullmatch( r'(\d+)/%s_(\d+)_(\d+)\.vtk' % base, os.path.relpath( f, f'{r.dir}/{D}' ) )
            if not m or m[1] != m[2] or int( m[1] ) >= c['ev']['parts']: raise Fail( 'wave-files', f'unexpected file {f}' )
            got.setdefault( int( m[3] ), {} )[ int( m[1] ) ] = f
        n = len( want )
        if sorted( got ) != ( list( range( n ) ) if sel else [] ): raise Fail( 'wave-files', f'snapshots {sorted(got)} instead of {n} (interval {w["int"]:.6g}, end {e["end"]:.6g}, {len(sel)} selected elements)' )
        for k in sorted( got ):
            s = [ y for x, y in zip( tm, st ) if abs( x-want[k] ) < 1e-9*max( 1, e['end'] ) ]
            if not s: raise Fail( 'sync-points', f'no synchronization point at {want[k]}' )
            t_, f = orc.field( r, s[0], prog )
            if abs( t_-want[k] ) > 1e-9*max( 1, e['end'] ): raise Fail( 'sync-time', f'synchronization point at {t_} instead of {want[k]}' )
            # rounding to single precision may not merge vertices
            key32 = lambda c_: tuple( sorted( tuple( np.asarray( v, 'f4' ).tolist() ) for v in c_ ) )
            by = { key32( v[1] ): ( kk, v ) for kk, v in f.items() }
            if len( by ) != len( f ): continue
            seen = {}
            for rk, p in sorted( got[k].items() ):
                what = f'snapshot {k}, rank {rk}'
                try: v = Vtk( open( p, 'rb' ).read(), what )
                except ( ValueError, IndexError, TypeError ) as x: raise Fail( 'vtk-format', f'{what}: {x}' )
                if v.bin != ( w['type'] == 'vtk_binary' ): raise Fail( 'vtk-format', f'{what}: not {w["type"]}' )
                if len( v.cells ) != v.n*( nv+1 ) or np.any( v.types != ty ): raise Fail( 'vtk-format', f'{what}: wrong cells' )
                if len( v.vars ) != nq*cr: raise Fail( 'vtk-format', f'{what}: {len(v.vars)} instead of {nq*cr} variables' )
                cl = v.cells.reshape( v.n, nv+1 )
                if np.any( cl[:,0] != nv ) or np.any( cl[:,1:] < 0 ) or np.any( cl[:,1:] >= len( v.pts ) ): raise Fail( 'vtk-format', f'{what}: wrong connectivity' )
                X = v.pts[ cl[:,1:] ]
                for i in range( v.n ):
                    x = by.get( key32( X[i] ) )
                    if x is None: raise Fail( 'wave-elements', f'{what}: unknown element at {X[i].mean(0)}' )
                    kk, q = x
                    if kk in seen: raise Fail( 'wave-elements', f'{what}: the element at {X[i].mean(0)} is also written by rank {seen[kk]}' )
                    seen[kk] = rk
                    if kk not in sel: raise Fail( 'wave-elements', f'{what}: the element at {X[i].mean(0)} is not selected' )
                    if q[2] != rk: raise Fail( 'wave-elements', f'{what}: the element at {X[i].mean(0)} belongs to rank {q[2]}' )
                    E = np.asarray( q[0][:,0,:], 'f4' ).T.reshape( -1 ); G = np.array( [ y[i] for _, y in v.vars ] )
                    b = ~( np.abs( E-G ) <= ( 0 if v.bin else 1e-7*np.abs( E ) ) )
                    if np.any( b ): raise Fail( 'wave-values', f'{what}, t={want[k]:.6g}: variable {v.vars[int(np.argmax(b))][0]} of the element at {X[i].mean(0)} is {G[b][0]} instead of {E[b][0]}' )
            if set( seen ) != sel: raise Fail( 'wave-elements', f'snapshot {k}: {len(sel-set(seen))} of {len(sel)} selected elements are missing' )
        with ctx.lock: self.extra = getattr( self, 'extra', { 'snapshots': 0 } ); self.extra['snapshots'] += len( got )
