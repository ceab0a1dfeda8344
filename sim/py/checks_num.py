# Checks of the numerical solution: partitioning, polynomial exactness, conservation, sources, norms, fused runs, shallow water.
import heapq, json, math, os, random, re
import numpy as np
import basis, cases, gen, h5, mesh, orc, poly
from engine import Fail, key, must_ok, schedule
from checks import Check, Schedules, copy

class Judged( Schedules ):
    """a pool of cases; every case is run under several random schedules and every run is judged by itself"""
    per_case = 3; snap = True
    def judge( self, ctx, t, devs=None, devs_out=None ):
        v = dict( t['var'] )
        if self.snap: v['snap'] = 'snap'
        r = ctx.edge( t['case'], v, devs, devs_out )
        try: must_ok( r ); self.verify( ctx, t, r )
        finally: ctx.drop( r )

def same_field( prog, fa, fb, tol, what, cols=None ):
    """compares two solutions at points in every element; fa, fb: fields; cols: (fused run of a, fused run of b)"""
    eq, el, order, cr = cases.info( prog )
    if set( fa ) != set( fb ): raise Fail( 'elements', f'{what}: {len(set(fb)-set(fa))} unknown and {len(set(fa)-set(fb))} missing elements' )
    ca, cb = cols or ( slice( None ), slice( None ) )
    sc = 0; A = []; B = []; ks = []
    for k in fa:
        qa, c, _, _ = fa[k]; qb, c2, _, _ = fb[k]
        if np.array_equal( c, c2 ): x = None
        qa = qa[:,:,ca] if isinstance( ca, slice ) else qa[:,:,ca:ca+1]; qb = qb[:,:,cb] if isinstance( cb, slice ) else qb[:,:,cb:cb+1]
        xi = np.array( basis.REF[el] ); x = basis.to_phy( el, c, xi )
        A.append( np.einsum( 'pm,qmc->pqc', basis.evaluate( el, order-1, xi ), qa ) )
        B.append( np.einsum( 'pm,qmc->pqc', basis.evaluate( el, order-1, basis.to_ref( el, c2, x ) ), qb ) ); ks.append( c )
    A = np.array( A ); B = np.array( B )
    if not np.all( np.isfinite( B ) ): raise Fail( 'not-finite', f'{what}: not finite' )
    sc = np.max( np.abs( A ), axis=( 0, 1 ) ); sc = np.maximum( sc, 1e-3*np.max( sc ) + 1e-300 )
    D = np.max( np.abs( A-B )/sc, axis=1 ); i = np.unravel_index( np.argmax( D ), D.shape )
    if not D[i] <= tol: raise Fail( 'solution', f'{what}: quantity {i[1]} of the element at {ks[i[0]].mean(0).round(4).tolist()} differs by {D[i]:.2e} (relative, tolerance {tol:.0e}); {int(np.sum(np.any(D > tol, axis=(1,2))))} of {len(ks)} elements differ' )
    return D[i]
def tol( prog, t64=1e-9, t32=2e-4 ): return t64 if cases.prec( prog ) == 8 else t32

def recv_rows( d, names, what='' ):
    """{name: (header, values)}; a receiver must have exactly one file"""
    o = {}; R = orc.recvs( d )
    for n in names:
        l = R.get( n, [] )
        if len( l ) != 1: raise Fail( 'receiver-files', f'{what}: receiver {n} has {len(l)} files ({[x[0] for x in l]})' )
        h, rs = orc.rows( l[0][1] )
        try: v = orc.vals( rs )
        except ValueError: raise Fail( 'receiver-rows', f'{what}: receiver {n} has malformed rows' )
        o[n] = ( h, v )
    for n in R:
        if n not in names: raise Fail( 'receiver-files', f'{what}: unknown receiver file {n}' )
    return o

# ------------------------------------------------------------------ C03
class C03( Judged ):
    """Random problems on several ranks under random schedules; the solution at every synchronization point and all receivers are compared with the same problem on one rank."""
    configs = { 'quick': [ 'el_tria3_o3', 'el_tet4_o2', 'ad_tria3_o3', 'el_hex8r_o2', 've_tria3_o2' ], 'thorough': [ 'el_tria3_o3', 'el_tet4_o2', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'el_tet4_o2_f32', 've_tria3_o2', 'ad_tria3_o3', 'ad_tet4_o2', 'ad_quad4r_o2' ] }
    n = { 'quick': 375, 'thorough': 5000 }
    def case( self, rng, prog, tier, i ):
        p = rng.choice( [ 2, 3, 3, 4, 4, 5, 6, 8 ] ); s = rng.choice( [ 's', 'm', 'm' ] )
        if prog[:2] == 'ad': return cases.adv( rng, prog, parts=p, size=s )
        c = cases.seis( rng, prog, parts=p, size=s, groups=rng.choice( [ 1, 2, 3, 3, 4 ] ) )
        if rng.random() < 0.4: cases.sources( rng, c )
        if prog[:2] == 'el' and rng.random() < 0.2: c['vm'] = 1   # the velocity model comes with the mesh
        return c
    def verify( self, ctx, t, r ):
        c = t['case']; one = copy( c ); one['ev']['parts'] = 1; vm = one.pop( 'vm', None ); ref = ctx.ref( one ); prog = c['prog']; tl = tol( prog ) if not vm else 1e-4
        sa = sorted( ( s[1], s[2] ) for s in ref.res['sync'] )
        for k in range( c['ev']['parts'] ):
            sb = sorted( ( s[1], s[2] ) for s in r.res['sync'] if s[0] == k )
            if len( sa ) != len( sb ) or any( abs( x[1]-y[1] ) > 1e-9*c['edge']['end'] for x, y in zip( sa, sb ) ): raise Fail( 'sync-points', f'rank {k} has synchronization points {sb[:5]}, one rank alone {sa[:5]}' )
        for s in orc.steps( ref ):
            _, fa = ctx.cached( ( 'fld', ref.dir, s ), lambda: orc.field( ref, s, prog ) ); _, fb = orc.field( r, s, prog )
            same_field( prog, fa, fb, tl, f"{c['ev']['parts']} ranks against one, synchronization {s}" )
        if 'recv' in c['edge']:
            ns = [ n for n, _ in c['edge']['recv']['pts'] ]
            a = recv_rows( ref.dir, ns, 'one rank' ); b = recv_rows( r.dir, ns, f"{c['ev']['parts']} ranks" )
            for n in ns:
                if a[n][0] != b[n][0]: raise Fail( 'receiver-rows', f'receiver {n}: different columns' )
                x, y = a[n][1], b[n][1]
                if x.shape != y.shape: raise Fail( 'receiver-rows', f'receiver {n}: {y.shape} instead of {x.shape} values' )
                if len( x ) and np.max( np.abs( x[:,0]-y[:,0] ) ) > 1.1e-6: raise Fail( 'receiver-rows', f'receiver {n}: other sampling times' )
                if len( x ): orc.close( x[:,1:], y[:,1:], ( 3e-6 if cases.prec( prog ) == 8 else 5e-4 ) if not vm else 1e-3, f'receiver {n}, {c["ev"]["parts"]} ranks against one', scale=max( 1e-300, np.max( np.abs( x[:,1:] ) ) ) )

# ------------------------------------------------------------------ polynomial solutions
def clean( ctx, c, prep, times, dts ):
    """elements which the boundary has not reached yet at the given synchronization times.
       dts: stability limits; information crosses at most one face per time step (of the smaller step of both elements)"""
    el = c['mesh']['el']; vs, els, dia = cases.geom( c['mesh'] )
    G, rel = mesh.groups( prep, c['ev']['parts'] )
    # groups by geometry: the partitions' files give the order
    byk = {}
    for r in range( c['ev']['parts'] ):
        m = mesh.read( mesh.part_file( prep, c['ev']['parts'], r ) )
        for e, g in zip( m[3], G[r] ): byk[ orc.ekey( [ m[2][v] for v in e ] ) ] = g
    keys = [ orc.ekey( [ vs[v] for v in e ] ) for e in els ]
    if any( k not in byk for k in keys ): raise Fail( 'elements', 'elements are missing in the partitioned meshes' )
    g = [ byk[k] for k in keys ]; nG = len( rel )-1
    dtf = rel[0]*min( dts ); step = [ dtf*2**x for x in g ]
    nb = mesh.neighbours( el, els ); bnd = [ i for i, n in enumerate( nb ) if None in n ]
    bad = set(); out = []; t0 = 0.0
    for t in times:
        L = t-t0
        if L <= 0: out.append( set( keys ) ); continue
        dm = dtf*2**( nG-1 ); full = math.floor( L/dm*( 1+1e-12 ) + 1e-9 )
        for ln, f in ( ( full*dm, 1.0 ), ( L-full*dm, ( L-full*dm )/dm ) ):
            if ln <= 0: continue
            arr = { i: 0.0 for i in bad }
            for i in bnd: arr[i] = min( arr.get( i, 1e99 ), step[i]*f )
            h = [ ( a, i ) for i, a in arr.items() ]; heapq.heapify( h )
            while h:
                a, i = heapq.heappop( h )
                if a > arr[i]: continue
                for j in nb[i]:
                    if j is None: continue
                    b = a + min( step[i], step[j] )*f
                    if b < arr.get( j, 1e99 ) and b <= ln*( 1+1e-9 ): arr[j] = b; heapq.heappush( h, ( b, j ) )
            bad = { i for i, a in arr.items() if a <= ln*( 1+1e-9 ) }
        t0 = t; out.append( { keys[i] for i in range( len( keys ) ) if i not in bad } )
    return out
def sync_times( e ):
    """the times at which a run synchronizes, including the start"""
    w = e['wf']['int'] if e.get( 'wf' ) else 1e99; m = e.get( 'sync' ) or e['end']*0.05; o = [ 0.0 ]; t = 0.0; k = 1
    while e['end'] - t > 1e-10:
        t = min( t + m, k*w, e['end'] ); o.append( t )
        if t + 1e-10 > k*w: k += 1
    return o
def graded( rng, el, n=None ):
    """fine in the middle, coarse towards the boundary"""
    d = gen.DIM[el]; W = [ [4,4,2,2,1,1,2,2,4,4], [3,2,1,1,1,1,2,3], [2,1,1,1,1,1,1,2], [4,2,1,1,1,2,4] ] if d == 2 else [ [4,2,1,1,2,4], [2,1,1,1,2], [4,2,1,1,4], [2,1,1,2] ]
    w = [ rng.choice( W ) for _ in range( d ) ]
    if el == 'tet4' and math.prod( len( x ) for x in w ) > 100: w[ rng.randrange( d ) ] = [2,1,1,2]
    return { 'el': el, 'n': [ len( x ) for x in w ], 'len': [ round( rng.uniform( 0.7, 1.3 )*len( x )*0.5, 3 ) for x in w ], 'grading': [ [ x ] for x in w ], 'jitter': rng.choice( [ 0, 0.15, 0.25 ] ), 'bnd': None, 'seed': rng.randrange( 1 << 30 ), 'origin': [ round( rng.uniform( -2, 0 ), 3 ) for _ in range( d ) ] }
class Poly( Judged ):
    def poly_case( self, rng, prog ):
        eq, el, order, cr = cases.info( prog ); d = gen.DIM[el]; m = graded( rng, el )
        m['bnd'] = [ rng.choice( [ 105, 101 ] ) if eq != 'ad' else 105 for _ in range( 2*d ) ]
        dt = min( cases.adv_dts( m, order ) ) if eq == 'ad' else None
        e = {}
        if eq == 'ad':
            q = [ [ poly.space( rng, d, order-1 ) ] for _ in range( cr ) ]; v = cases.ADV
            mats = [ np.array( [ [ -v[i] ] ] ) for i in range( d ) ]; dts = cases.adv_dts( m, order )
        else:
            mat, vp = cases.materials( rng ); mats = poly.elastic( d, *mat ); dts = cases.dts( m, order, vp )
            q = [ [ poly.space( rng, d, order-1 ) for _ in range( cases.nq( prog ) ) ] for _ in range( cr ) ]; e['vel'] = cases.full( d, mat )
        sol = [ poly.solve( mats, x, order-1 ) for x in q ]
        e['init'] = [ ''.join( 'q[%d]:=%s;' % ( i, poly.expr( p ) ) for i, p in enumerate( x ) ) for x in q ]
        ev = { 'parts': rng.choice( [ 1, 2, 3, 4, 5 ] ), 'groups': rng.choice( [ 1, 2, 3, 3, 4 ] ) }
        if rng.random() < 0.4: ev['fun_dt'] = rng.choice( [ 0.51, 0.7, 0.99 ] )
        n = rng.uniform( 1.5, 6 )*rng.choice( [ 1, 2, 3 ] ); e['end'] = min( dts )*n
        s = rng.choice( [ None, 1.5, 1.5, 1.5, 0.7, 0.4, 0.25 ] )
        if s: e['sync'] = e['end']*s*rng.uniform( 0.8, 1.2 )
        return { 'prog': prog, 'mesh': m, 'ev': ev, 'edge': e, 'dts': dts, 'sol': [ [ [ [ list( k ), v ] for k, v in p.items() ] for p in x ] for x in sol ] }
    def solution( self, c ): return [ [ { tuple( k ): v for k, v in p } for p in x ] for x in c['sol'] ]
    def clean( self, ctx, c, prep ): return ctx.cached( 'cl' + prep + key( c['edge'] ), lambda: clean( ctx, c, prep, sync_times( c['edge'] ), c['dts'] ) )
    def exact( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; eq, el, order, cr = cases.info( prog ); d = gen.DIM[el]; prep = ctx.prep( c )
        sol = self.solution( c ); cl = self.clean( ctx, c, prep ); tm = sync_times( c['edge'] ); st = orc.steps( r )
        if len( st ) != len( tm ): raise Fail( 'sync-points', f'{len(st)} synchronization points instead of {len(tm)}' )
        xi = np.array( basis.REF[el] ); Ph = basis.evaluate( el, order-1, xi ); used = 0
        for s, ts, ok in zip( st, tm, cl ):
            tt, f = orc.field( r, s, prog )
            if abs( tt-ts ) > 1e-9*max( 1, ts ): raise Fail( 'sync-time', f'synchronization {s} at {tt} instead of {ts}' )
            if len( f ) != len( cases.geom( c['mesh'] )[1] ): raise Fail( 'elements', f'{len(f)} elements instead of {len( cases.geom( c["mesh"] )[1] )}' )
            ks = [ k for k in f if k in ok ]; used += len( ks )
            if not ks: continue
            X = np.array( [ basis.to_phy( el, f[k][1], xi ) for k in ks ] ); Q = np.array( [ f[k][0] for k in ks ] )
            if not np.all( np.isfinite( Q ) ): raise Fail( 'not-finite', f'synchronization {s}: not finite' )
            V = np.einsum( 'pm,eqmc->epqc', Ph, Q )
            for cc in range( cr ):
                for q in range( V.shape[2] ):
                    E = poly.at( sol[cc][q], X.reshape( -1, d ), tt ).reshape( X.shape[:2] ); sc = max( 1e-3, np.max( np.abs( E ) ) )
                    D = np.max( np.abs( E-V[:,:,q,cc] ), axis=1 )/sc; i = int( np.argmax( D ) )
                    if not D[i] <= tol( prog, 1e-8, 1e-3 ): raise Fail( 'not-exact', f'synchronization {s} (t={tt:.5g}): quantity {q} of the element at {X[i].mean(0).round(4).tolist()} differs from the exact solution by {D[i]:.2e} (relative); {int(np.sum(D > tol( prog, 1e-8, 1e-3 )))} of {len(ks)} judged elements are wrong' )
        with ctx.lock: self.extra = getattr( self, 'extra', { 'judged_element_states': 0 } ); self.extra['judged_element_states'] += used
class C05( Poly ):
    """Random polynomial solutions of the elastic equations on graded meshes under random schedules; all elements not reached by the boundary are compared with the exact solution."""
    configs = { 'quick': [ 'el_tria3_o3', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2' ], 'thorough': [ 'el_tria3_o3', 'el_tria3_o2', 'el_tet4_o2', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'el_tet4_o2_c4', 'el_tet4_o2_f32' ] }
    n = { 'quick': 320, 'thorough': 6000 }; per_case = 2
    def case( self, rng, prog, tier, i ): return self.poly_case( rng, prog )
    def verify( self, ctx, t, r ): self.exact( ctx, t, r )

# ------------------------------------------------------------------ C12
class C12( Poly ):
    """Advection: polynomial solutions on graded meshes and conservation of random waves in periodic domains, under random schedules."""
    configs = { 'quick': [ 'ad_tria3_o3', 'ad_tet4_o2', 'ad_quad4r_o2' ], 'thorough': [ 'ad_tria3_o3', 'ad_tet4_o2', 'ad_quad4r_o2' ] }
    n = { 'quick': 420, 'thorough': 8000 }
    def case( self, rng, prog, tier, i ):
        if rng.random() < 0.55: return self.poly_case( rng, prog )
        return poly_init( rng, cases.adv( rng, prog, bnd=106, steps=( 6, 40 ), size=rng.choice( [ 's', 'm', 'm' ] ) ) )
    def verify( self, ctx, t, r ):
        if 'sol' in t['case']: return self.exact( ctx, t, r )
        totals( ctx, t['case'], r )
def integrals( prog, f ):
    """integral over the domain of every quantity: [qty][fused run], and of its absolute value as scale"""
    eq, el, order, cr = cases.info( prog ); xi, w = basis.quad( el, order+1 ); ph = basis.evaluate( el, order-1, xi )
    I = w @ ph; s = 0; a = 0
    for k in sorted( f ):
        q, c, _, _ = f[k]; D = basis.det( el, c ); s = s + D*np.einsum( 'm,qmc->qc', I, q ); a = a + D*np.einsum( 'p,pqc->qc', w, np.abs( np.einsum( 'pm,qmc->pqc', ph, q ) ) )
    return s, a
def poly_init( rng, c, amp=1.0 ):
    """replaces the initial values by random polynomials (discontinuous over a periodic boundary), whose totals are known exactly"""
    prog = c['prog']; eq, el, order, cr = cases.info( prog ); d = gen.DIM[el]
    q = [ [ poly.space( rng, d, order-1, amp ) for _ in range( cases.nq( prog ) ) ] for _ in range( cr ) ]
    c['edge']['init'] = [ ''.join( 'q[%d]:=%s;' % ( i, poly.expr( p ) ) for i, p in enumerate( x ) ) for x in q ]
    c['sol0'] = [ [ [ [ list( k ), v ] for k, v in p.items() ] for p in x ] for x in q ]
    return c
def initial( c ):
    """a field with the initial values at quadrature points: [(det, points, values [pts][qty][fused run])]"""
    prog = c['prog']; eq, el, order, cr = cases.info( prog ); d = gen.DIM[el]; xi, w = basis.quad( el, order+1 ); o = []
    vs, els, _ = cases.geom( c['mesh'] )
    for e in els:
        co = np.array( [ vs[v] for v in e ] ); x = basis.to_phy( el, co, xi )
        o.append( ( basis.det( el, co ), x, np.array( [ [ poly.at( { tuple( k ): v for k, v in p }, x, 0 ) for p in q ] for q in c['sol0'] ] ).transpose( 2, 1, 0 ) ) )
    return o, w
def total0( c, den=None ):
    o, w = initial( c ); s = a = 0
    for D, x, v in o:
        f = den( x ) if den else None
        s = s + D*np.einsum( 'p,pqc->qc', w, v if f is None else v*f ); a = a + D*np.einsum( 'p,pqc->qc', w, np.abs( v if f is None else v*f ) )
    return s, a
def totals( ctx, c, r ):
    """every quantity's integral stays what it was initially"""
    prog = c['prog']; t0 = ctx.cached( 'tot' + key( [ c['mesh'], c['sol0'] ] ), lambda: total0( c ) )
    for s in orc.steps( r ):
        tt, f = orc.field( r, s, prog ); orc.finite( f ); I, A = integrals( prog, f )
        D = np.abs( I-t0[0] )/np.maximum( t0[1], 1e-3*np.max( t0[1] ) ); i = np.unravel_index( np.argmax( D ), D.shape )
        if not D[i] <= tol( prog, 1e-9, 1e-4 ): raise Fail( 'not-conserved', f'synchronization {s} (t={tt:.4g}): total of quantity {i[0]} is {I[i]:.9g} instead of {t0[0][i]:.9g} (relative {D[i]:.1e})' )

# ------------------------------------------------------------------ C13
class C13( Judged ):
    """Fused runs with different initial values and sources (some of them overflowing on purpose) under random schedules; every fused run is compared with the same simulation run alone."""
    configs = { 'quick': [ 'el_tria3_o2_c2', 'el_tria3_o2', 'el_tet4_o2_c4', 'el_tet4_o2' ], 'thorough': [ 'el_tria3_o2_c2', 'el_tria3_o2', 'el_tet4_o2_c4', 'el_tet4_o2' ] }
    n = { 'quick': 140, 'thorough': 4000 }
    def case( self, rng, prog, tier, i ):
        prog = [ 'el_tria3_o2_c2', 'el_tet4_o2_c4' ][i%2]
        c = cases.seis( rng, prog, parts=rng.choice( [ 1, 2, 3, 4 ] ), size=rng.choice( [ 's', 'm' ] ), err=False )
        if rng.random() < 0.5: cases.sources( rng, c )
        cr = cases.info( prog )[3]; c['poison'] = []
        if rng.random() < 0.5:
            for k in rng.sample( range( cr ), rng.randint( 1, cr-1 ) ):
                c['poison'].append( k ); c['edge']['init'][k] = ''.join( 'q[%d]:=1e200*sin(%d*x+y)/0.0;' % ( q, q ) if rng.random() < 0.5 else 'q[%d]:=1e306;' % q for q in range( cases.nq( prog ) ) )
        elif rng.random() < 0.3:
            k = rng.randrange( cr ); c['edge']['init'][k] = ''.join( 'q[%d]:=0;' % q for q in range( cases.nq( prog ) ) )
        return c
    def verify( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; eq, el, order, cr = cases.info( prog ); base = prog.rsplit( '_', 1 )[0]; nq = cases.nq( prog )
        for k in range( cr ):
            if k in c['poison']: continue
            one = copy( c ); one['prog'] = base; one['edge']['init'] = [ c['edge']['init'][k] ]; del one['poison']
            if c.get( 'ps' ): one['ps'] = [ c['ps'][k] ]
            ref = ctx.ref( one )
            for s in orc.steps( ref ):
                fa = ctx.cached( ( 'fld', ref.dir, s ), lambda: orc.field( ref, s, base ) )[1]; fb = orc.field( r, s, prog )[1]
                same_field( base, fa, fb, 1e-10, f'fused run {k} of {cr} against the same run alone, synchronization {s}', cols=( 0, k ) )
            if 'recv' in c['edge']:
                ns = [ n for n, _ in c['edge']['recv']['pts'] ]; a = recv_rows( ref.dir, ns, 'alone' ); b = recv_rows( r.dir, ns, 'fused' )
                for n in ns:
                    x, y = a[n][1], b[n][1]
                    if len( x ) != len( y ) or ( len( x ) and y.shape[1] != 1+nq*cr ): raise Fail( 'receiver-rows', f'receiver {n}: {y.shape} instead of {len(x)} rows of {1+nq*cr} values' )
                    if not len( x ): continue
                    if np.max( np.abs( x[:,0]-y[:,0] ) ) > 1.1e-6: raise Fail( 'receiver-rows', f'receiver {n}: other sampling times' )
                    orc.close( x[:,1:], y[:,1+k::cr], 3e-6, f'receiver {n}, fused run {k} of {cr} against the same run alone' )

# ------------------------------------------------------------------ C17
def f32( x ): return float( np.float32( x ) )
def series_int( on, dt, v, T ):
    """integral of the piecewise linear series over [0, T]; zero outside of the series"""
    s = 0.0
    for i in range( len( v )-1 ):
        a, b = on + i*dt, on + ( i+1 )*dt; lo, hi = max( a, 0.0 ), min( b, T )
        if hi <= lo: continue
        f = lambda t: v[i] + ( v[i+1]-v[i] )*( t-a )/dt
        s += 0.5*( f( lo ) + f( hi ) )*( hi-lo )
    return s
class C17( Judged ):
    """Point sources in periodic homogeneous domains under random schedules: totals of all quantities equal the integrated sources at every synchronization point, and after the first step the solution is the sources' projection."""
    configs = { 'quick': [ 'el_tria3_o3', 'el_tet4_o2', 'el_tria3_o2_c2' ], 'thorough': [ 'el_tria3_o3', 'el_tria3_o2', 'el_tet4_o2', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'el_tet4_o2_c4' ] }
    n = { 'quick': 360, 'thorough': 6000 }
    def case( self, rng, prog, tier, i ):
        eq, el, order, cr = cases.info( prog ); first = rng.random() < 0.3
        c = cases.seis( rng, prog, bnd=106, hetero=False, recv=False, groups=rng.choice( [ 1, 2, 3 ] ), sync='few' if rng.random() < 0.6 else 'many', steps=( 6, 30 ), parts=rng.choice( [ 1, 2, 3, 4, 5 ] ), size=rng.choice( [ 's', 'm' ] ) )
        m = c['mesh']; d = gen.DIM[el]
        # vertices which have exact single precision coordinates: sources may be exactly on the boundary of several ranks
        if rng.random() < 0.6: m['round'] = K = 256; m['len'], m['origin'] = ( [ round( x*K )/K for x in m[n] ] for n in ( 'len', 'origin' ) )
        vs, els, _ = cases.geom( m )
        c['edge']['init'] = [ ''.join( 'q[%d]:=0;' % q for q in range( cases.nq( prog ) ) ) ]*cr
        def where( g ):
            k = g.random()
            if k < 0.55: return cases.point( g, m )
            e = els[ g.randrange( len( els ) ) ]
            if k < 0.7: return [ f32( x ) for x in vs[ g.choice( e ) ][:d] ]          # on a vertex
            f = g.choice( gen.FACES[el] ); return [ f32( sum( vs[e[v]][j] for v in f )/len( f ) ) for j in range( d ) ]  # on a face
        cases.sources( rng, c, where=where )
        if first:
            mat = c['edge']['vel'][0][1]; vp = math.sqrt( ( mat[1]+2*mat[2] )/mat[0] )
            c['edge']['end'] = min( cases.dts( m, order, vp ) )*0.5*rng.random() + 1e-6; c['edge']['sync'] = c['edge']['end']*2; c['first'] = 1; c['ev']['groups'] = 1
            for p in c['ps']:
                for q in p['par']: q[0] = 0.0
        return c
    def verify( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; eq, el, order, cr = cases.info( prog ); nq = cases.nq( prog ); d = gen.DIM[el]
        for s in orc.steps( r ):
            tt, f = orc.field( r, s, prog ); orc.finite( f ); I, A = integrals( prog, f )
            W = [ [ series_int( f32( a[0] ), f32( a[1] ), [ f32( x ) for x in v ], tt ) for a, v in zip( p['par'], p['series'] ) ] for p in c['ps'] ]
            E = np.array( [ [ sum( w*f32( sc[q] ) for w, sc in zip( W[k], c['ps'][k]['scal'] ) ) for k in range( cr ) ] for q in range( nq ) ] )
            S = np.array( [ [ sum( tt*max( abs( x ) for x in v )*abs( f32( sc[q] ) ) for v, sc in zip( c['ps'][k]['series'], c['ps'][k]['scal'] ) ) for k in range( cr ) ] for q in range( nq ) ] )
            mx = max( np.max( S ), 1e-300 ); D = np.abs( I-E )/np.maximum( S, 1e-2*mx ); i = np.unravel_index( np.argmax( D ), D.shape )
            if not D[i] <= 1e-8: raise Fail( 'source-total', f'synchronization {s} (t={tt:.5g}): total of quantity {i[0]} of fused run {i[1]} is {I[i]:.8g}, the sources amount to {E[i]:.8g}' )
            if c.get( 'first' ) and s == 1:
                self.place( ctx, c, f, W, el, order, cr, nq, d )
    def place( self, ctx, c, f, W, el, order, cr, nq, d ):
        # interior sources only: element and basis function values are unique
        M = np.diag( basis.mass( el, order-1 ) ); ex = {}; amb = False
        vs, els, _ = cases.geom( c['mesh'] )
        for k, p in enumerate( c['ps'] ):
            for x, sc, w in zip( p['pts'], p['scal'], W[k] ):
                x = np.array( [ f32( y ) for y in x ] ); hit = []
                for kk, ( q, co, _, _ ) in f.items():
                    xi = basis.to_ref( el, co, x[None,:] )[0]
                    u = list( xi ) + [ 1-sum( xi ) if el in ( 'tria3', 'tet4' ) else 1-max( xi ) ]
                    if min( u ) > -1e-5: hit.append( ( kk, xi, min( u ), co ) )
                if len( hit ) != 1 or hit[0][2] < 1e-5: amb = True; continue
                kk, xi, _, co = hit[0]; B = basis.evaluate( el, order-1, np.array( [ xi ] ) )[0]/M/basis.det( el, co )
                e = ex.setdefault( kk, np.zeros( ( nq, len( M ), cr ) ) )
                for q in range( nq ): e[q,:,k] += w*f32( sc[q] )*B
        if amb: return
        sc = max( [ np.max( np.abs( e ) ) for e in ex.values() ] + [ 1e-300 ] )
        for kk, ( q, co, _, _ ) in f.items():
            D = np.max( np.abs( q - ex.get( kk, 0 ) ) )/sc
            if not D <= 1e-6: raise Fail( 'source-place', f'after the first step the element at {co.mean(0).round(4).tolist()} holds a source contribution that is wrong by {D:.2e} (relative)' )

# ------------------------------------------------------------------ C18
class C18( Judged ):
    """Runs with polynomial reference solutions under random schedules; the reported norms are compared with the norms of the final solution's snapshot."""
    configs = { 'quick': [ 'el_tria3_o3', 'el_tet4_o2', 'el_tria3_o2_c2', 'ad_tria3_o3' ], 'thorough': [ 'el_tria3_o3', 'el_tet4_o2', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2', 'el_tet4_o2_c4', 'ad_tria3_o3', 'ad_tet4_o2' ] }
    n = { 'quick': 300, 'thorough': 5000 }
    def case( self, rng, prog, tier, i ):
        eq, el, order, cr = cases.info( prog ); d = gen.DIM[el]; kw = dict( parts=rng.choice( [ 1, 2, 3, 4, 5 ] ), size=rng.choice( [ 's', 'm' ] ), steps=( 3, 10 ) )
        c = cases.adv( rng, prog, **kw ) if eq == 'ad' else cases.seis( rng, prog, recv=False, **kw )
        pos = rng.random() < 0.5; R = []
        for _ in range( cr ):
            q = [ poly.space( rng, d, order-1 ) for _ in range( cases.nq( prog ) ) ]
            if pos:
                for p in q: p[(0,0,0,0)] = 1000.0*rng.choice( [ 1, -1 ] )
            R.append( q )
        c['edge']['err'] = { 'type': rng.choice( [ 'file', 'sout_file' ] ), 'file': 'err.xml', 'ref': [ ''.join( 'q[%d]:=%s;' % ( i, poly.expr( p ) ) for i, p in enumerate( x ) ) for x in R ] }
        c['refs'] = [ [ [ [ list( k ), v ] for k, v in p.items() ] for p in x ] for x in R ]; c['pos'] = pos
        return c
    def verify( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; eq, el, order, cr = cases.info( prog ); nq = cases.nq( prog )
        N = norms( r.dir + '/err.xml', nq, cr )
        tt, f = orc.field( r, orc.steps( r )[-1], prog ); xi, w = basis.quad( el, order+2 ); ph = basis.evaluate( el, order-1, xi )
        l1 = np.zeros( ( nq, cr ) ); l2 = np.zeros( ( nq, cr ) ); li = np.zeros( ( nq, cr ) ); mean = np.zeros( ( nq, cr ) )
        ref = [ [ { tuple( k ): v for k, v in p } for p in x ] for x in c['refs'] ]
        for k in sorted( f ):
            q, co, _, _ = f[k]; x = basis.to_phy( el, co, xi ); D = basis.det( el, co )
            df = np.einsum( 'pm,qmc->pqc', ph, q ) - np.array( [ [ poly.at( p, x, 0 ) for p in y ] for y in ref ] ).transpose( 2, 1, 0 )
            l1 += D*np.einsum( 'p,pqc->qc', w, np.abs( df ) ); l2 += D*np.einsum( 'p,pqc->qc', w, df*df )
            mean = np.maximum( mean, np.abs( np.einsum( 'p,pqc->qc', w, df ) )/np.sum( w ) )
            # bound of the maximum: values at the nodes of a fine grid of the element, with slack for the polynomial in between
            li = np.maximum( li, np.max( np.abs( df ), axis=0 ) )
        l2 = np.sqrt( l2 )
        def cmp( a, b, tl, what ):
            D = np.abs( a-b )/np.maximum( np.abs( b ), 1e-3*np.max( np.abs( b ) ) ); i = np.unravel_index( np.argmax( D ), D.shape )
            if not D[i] <= tl: raise Fail( 'norm', f'{what} error norm of quantity {i[0]}, fused run {i[1]}: {a[i]:.10g} reported, {b[i]:.10g} computed from the solution' )
        cmp( N[1], l2, 1e-9, 'L2' )
        if c['pos']: cmp( N[0], l1, 1e-9, 'L1' ); cmp( N[2], li, 0.05, 'Linf' )
        else: cmp( N[0], l1, 0.15, 'L1' )
        if np.any( N[2] < mean*( 1-1e-9 ) ): raise Fail( 'norm', 'Linf error norm is smaller than an element mean of the error' )
        if np.any( N[2] > 3*li + 1e-12 ): raise Fail( 'norm', 'Linf error norm is far above every difference' )
        one = copy( c ); one['ev']['parts'] = 1; R1 = ctx.ref( one ); N1 = norms( R1.dir + '/err.xml', nq, cr )
        for k, nm in enumerate( ( 'L1', 'L2', 'Linf' ) ): cmp( N[k], N1[k], tol( prog, 1e-8 ), nm + ' (against one rank)' )
def norms( path, nq, cr ):
    import xml.etree.ElementTree as ET
    if not os.path.exists( path ): raise Fail( 'norm-file', 'no error norm file' )
    try: x = ET.parse( path ).getroot(); a = np.array( [ [ [ float( v.text ) for v in q.findall( 'cfr' ) ] for q in x.find( n ).findall( 'q' ) ] for n in ( 'l1', 'l2', 'linf' ) ] )
    except Exception as e: raise Fail( 'norm-file', f'unreadable error norm file: {e}' )
    if a.shape != ( 3, nq, cr ): raise Fail( 'norm-file', f'error norm file holds {a.shape} values' )
    return a

# ------------------------------------------------------------------ C19
class C19( Judged ):
    """Elastic waves with periodic, free-surface and outflow boundaries, homogeneous and layered materials, over whole runs under random schedules: energy never grows; totals are conserved in periodic domains."""
    configs = { 'quick': [ 'el_tria3_o3', 'el_tet4_o2', 'el_quad4r_o2' ], 'thorough': [ 'el_tria3_o3', 'el_tria3_o2', 'el_tet4_o2', 'el_tet4_o3', 'el_quad4r_o2', 'el_hex8r_o2', 'el_tria3_o2_c2' ] }
    n = { 'quick': 300, 'thorough': 5000 }
    def case( self, rng, prog, tier, i ):
        c = cases.seis( rng, prog, recv=False, steps=( 15, 60 ), size=rng.choice( [ 's', 's', 'm' ] ), sync=rng.choice( [ 'few', 'many', 'many' ] ), groups=rng.choice( [ 1, 2, 3 ] ) )
        return poly_init( rng, c ) if rng.random() < 0.6 else c
    def verify( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; eq, el, order, cr = cases.info( prog ); nq = cases.nq( prog ); d = gen.DIM[el]; off = nq-d
        xi, w = basis.quad( el, order+1 ); ph = basis.evaluate( el, order-1, xi ); last = None; m0 = None
        per = bool( c['ev'].get( 'periodic' ) ); homo = len( c['edge']['vel'] ) == 2
        for s in orc.steps( r ):
            tt, f = orc.field( r, s, prog ); orc.finite( f ); E = 0; M = 0; A = 0
            for k in sorted( f ):
                q, co, _, _ = f[k]; D = basis.det( el, co ); rho, lam, mu = gen.material( c, co.mean( 0 ) )[:3]; v = np.einsum( 'pm,qmc->pqc', ph, q )
                tr = v[:,:d].sum( 1 ); nn = ( v[:,:d]**2 ).sum( 1 ) + 2*( v[:,d:off]**2 ).sum( 1 )
                e = 0.5*rho*( v[:,off:]**2 ).sum( 1 ) + ( nn - lam/( d*lam+2*mu )*tr**2 )/( 4*mu )
                E = E + D*( w @ e ); M = M + D*rho*np.einsum( 'p,pqc->qc', w, v[:,off:] ); A = A + D*rho*np.einsum( 'p,pqc->qc', w, np.abs( v[:,off:] ) )
            if s == 0: E0, m0, a0 = E, M, np.sqrt( 2*E*rho*sum( basis.det( el, f[k][1] ) for k in f ) ); last = E; continue
            g = np.max( ( E-last )/E0 )
            if not g <= self.slack: raise Fail( 'energy', f'synchronization {s} (t={tt:.4g}): the energy grew from {np.max(last):.9g} to {np.max(E):.9g} without sources (initially {np.max(E0):.9g})' )
            if per:
                D = np.max( np.abs( M-m0 )/a0 )
                if not D <= tol( prog, 1e-9, 1e-4 ): raise Fail( 'momentum', f'synchronization {s} (t={tt:.4g}): total momentum changed by {D:.2e} (relative) in a periodic domain' )
            last = E
            with ctx.lock: self.worst = max( getattr( self, 'worst', -1 ), float( g ) )
        if per and homo and 'sol0' in c: totals( ctx, c, r )
    slack = 1e-9

# ------------------------------------------------------------------ C11
G_SWE = 9.80665
def fwave( hL, hR, uhL, uhR, bL, bR ):
    uL, uR = uhL/hL, uhR/hR; hr = 0.5*( hL+hR ); ur = ( np.sqrt( hL )*uL + np.sqrt( hR )*uR )/( np.sqrt( hL )+np.sqrt( hR ) )
    l0 = np.minimum( uL-np.sqrt( G_SWE*hL ), ur-np.sqrt( G_SWE*hr ) ); l1 = np.maximum( uR+np.sqrt( G_SWE*hR ), ur+np.sqrt( G_SWE*hr ) )
    f0 = uhR-uhL; f1 = uhR*uR + 0.5*G_SWE*hR**2 - uhL*uL - 0.5*G_SWE*hL**2 + 0.5*G_SWE*( hR+hL )*( bR-bL )
    b0 = ( l1*f0-f1 )/( l1-l0 ); b1 = ( f1-l0*f0 )/( l1-l0 )
    L = np.zeros( ( 2, len( hL ) ) ); R = np.zeros( ( 2, len( hL ) ) )
    for b, l in ( ( b0, l0 ), ( b1, l1 ) ):
        left = l < 0
        for i, v in ( ( 0, b ), ( 1, b*l ) ): L[i] += np.where( left, v, 0 ); R[i] += np.where( left, 0, v )
    return L, R
def swe_ref( c, co, h, b, times, rel ):
    """first-order f-wave finite volumes; co: coordinates of the elements [n][nv][3]"""
    el = c['mesh']['el']; n = len( co ); vol = np.array( [ basis.vol( el, x ) for x in co ] ); dia = np.array( [ gen.in_dia( el, x ) for x in co ] )
    # faces
    fa = {}; bx = cases.box( c['mesh'] ); bnd = c['mesh']['bnd']
    for i in range( n ):
        for f in gen.FACES[el]:
            p = [ co[i][v] for v in f ]; fa.setdefault( tuple( sorted( tuple( np.round( x*1e6 ).astype( int ) ) for x in p ) ), [] ).append( ( i, p ) )
    lf, rt, nrm, ar, ty = [], [], [], [], []
    for l in fa.values():
        i, p = l[0]; e = p[1]-p[0]; a = math.hypot( e[0], e[1] ); m = np.array( [ e[1], -e[0] ] )/a
        if np.dot( m, ( p[0]+p[1] )[:2]/2 - co[i].mean( 0 )[:2] ) < 0: m = -m
        t = 0
        if len( l ) == 1:
            for ax in range( 2 ):
                for sd in range( 2 ):
                    if all( abs( q[ax]-bx[ax][sd] ) < 1e-7 for q in p ): t = bnd[2*ax+sd]
        lf.append( i ); rt.append( l[1][0] if len( l ) == 2 else i ); nrm.append( m ); ar.append( a ); ty.append( t )
    lf, rt, nrm, ar, ty = np.array( lf ), np.array( rt ), np.array( nrm ), np.array( ar ), np.array( ty )
    wet0 = h > 0; dt0 = rel*np.min( 0.45*dia[wet0]/np.sqrt( G_SWE*h[wet0] ) ) if np.any( wet0 ) else 1e300
    hu = np.zeros( ( n, 2 ) ); h = h.copy(); out = [ ( h.copy(), hu.copy() ) ]; t0 = 0.0; nst = 0
    wl, wr = b[lf] < 0, b[rt] < 0; act = wl | wr
    def step( dt ):
        nonlocal h, hu
        hL, hR = h[lf].copy(), h[rt].copy(); qL = np.sum( hu[lf]*nrm, 1 ); qR = np.sum( hu[rt]*nrm, 1 ); bL, bR = b[lf].copy(), b[rt].copy()
        qR = np.where( ty == 101, -qL, qR )
        m = ~wl & wr; hL[m] = hR[m]; qL[m] = -qR[m]; bL[m] = bR[m]
        m = wl & ~wr; hR[m] = hL[m]; qR[m] = -qL[m]; bR[m] = bL[m]
        a = act; L = np.zeros( ( 2, len( lf ) ) ); R = np.zeros( ( 2, len( lf ) ) )
        L[:,a], R[:,a] = fwave( hL[a], hR[a], qL[a], qR[a], bL[a], bR[a] ); L[:,~wl] = 0; R[:,~wr] = 0; R[:,ty != 0] = 0
        for sd, U in ( ( lf, L ), ( rt, R ) ):
            np.add.at( h, sd, -dt/vol[sd]*ar*U[0] )
            for i in range( 2 ): np.add.at( hu[:,i], sd, -dt/vol[sd]*ar*nrm[:,i]*U[1] )
    for t in times[1:]:
        L = t-t0; k = math.floor( L/dt0 + 1e-9 ) if dt0 < 1e299 else 0
        for _ in range( k ): step( dt0 ); nst += 1
        if L-k*dt0 > 1e-10: step( L-k*dt0 ); nst += 1
        t0 = t; out.append( ( h.copy(), hu.copy() ) )
    return out, vol, nst
class C11( Judged ):
    """Shallow water over random wet and partly dry bathymetry under random schedules and thread counts, compared with an independent finite volume reference, with volume conservation and lakes at rest."""
    configs = { 'quick': [ 'swe_quad4r_c1', 'swe_tria3_c1' ], 'thorough': [ 'swe_quad4r_c1', 'swe_tria3_c1' ] }
    n = { 'quick': 600, 'thorough': 9000 }
    def case( self, rng, prog, tier, i ): return cases.swe( rng, prog, size=rng.choice( [ 's', 'm', 'm' ] ), steps=( 4, 40 ), rest=rng.random() < 0.3 )
    def verify( self, ctx, t, r ):
        c = t['case']; prog = c['prog']; p = ctx.prep( c ); sup = h5.read( p + '/out_1.h5' ); ts = c['ev']['tsunami']
        b = sup['edge_v/bath'].ravel().astype( float ); dp = sup['edge_v/disp_0'].ravel().astype( float )
        tm = sync_times( c['edge'] ); st = orc.steps( r )
        if len( st ) != len( tm ): raise Fail( 'sync-points', f'{len(st)} synchronization points instead of {len(tm)}' )
        S = [ orc.snap( r, s, 4 )[0] for s in st ]; co = S[0][2]
        if len( co ) != len( cases.geom( c['mesh'] )[1] ) or len( b ) != len( co ): raise Fail( 'elements', f'{len(co)} elements instead of {len( cases.geom( c["mesh"] )[1] )}' )
        h0 = np.maximum( -b+dp, 0 )
        ref, vol, nst = ctx.cached( 'swe' + key( c ), lambda: swe_ref( c, co, h0, b, tm, float( sup['edge_v/relative_time_steps'][0] ) ) )
        hm = max( np.max( h0 ), 1e-9 ); qs = hm*math.sqrt( G_SWE*hm ); rest = not np.any( np.array( ts['disp'] ) ); closed = all( x == 101 for x in c['mesh']['bnd'] )
        v0 = np.sum( vol*h0 ); wet = b < 0
        for ( h, hu ), ( _, tt, _, q ), want in zip( ref, S, tm ):
            if abs( tt-want ) > 1e-6*max( 1, want ): raise Fail( 'sync-time', f'synchronization at {tt} instead of {want}' )
            q = q.astype( float ).reshape( len( q ), 3 )
            if not np.all( np.isfinite( q ) ): raise Fail( 'not-finite', f't={tt:.4g}: not finite' )
            D = np.max( np.abs( q - np.column_stack( [ h, hu ] ) )/np.array( [ hm, qs, qs ] ), axis=1 ); i = int( np.argmax( D ) )
            if not D[i] <= 5e-6 + 1e-6*nst: raise Fail( 'scheme', f't={tt:.5g}: cell at {co[i].mean(0)[:2].round(4).tolist()} holds {q[i].tolist()}, the reference scheme {[h[i],*hu[i]]} (relative {D[i]:.1e}, {int(np.sum(D > 5e-6 + 1e-6*nst))} cells)' )
            if closed:
                e = abs( np.sum( vol*q[:,0] )-v0 )/v0
                if not e <= 2e-6 + 1e-7*nst: raise Fail( 'volume', f't={tt:.5g}: the water volume changed by {e:.1e} (relative) in a closed basin' )
            if rest and np.any( wet ):
                e = max( np.max( np.abs( q[wet,0]-h0[wet] ) )/hm, np.max( np.abs( q[wet,1:] ) )/qs )
                if not e <= 5e-6 + 1e-6*nst: raise Fail( 'lake-at-rest', f't={tt:.5g}: a lake at rest moves ({e:.1e}, relative)' )
