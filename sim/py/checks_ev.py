# Checks of EDGE-V: time step groups, partitioning, communication structure and everything it writes.
import bisect, glob, math, os, random
import numpy as np
import cases, gen, h5, mesh, orc
from engine import Fail, Run, key, must_ok, schedule
from checks import Check, Schedules, copy

# local faces of EDGE-V's elements
LFA = { 'tria3': [ (0,1), (1,2), (2,0) ], 'quad4r': [ (0,1), (1,2), (2,3), (3,0) ], 'tet4': [ (0,1,2), (0,1,3), (0,2,3), (1,2,3) ], 'hex8r': [ (0,3,2,1), (0,1,5,4), (1,2,6,5), (3,7,6,2), (0,4,7,3), (4,5,6,7) ] }
VID = [ [ 0, 2, 1 ], [ 0, 1, 3 ], [ 0, 3, 2 ], [ 1, 2, 3 ] ]   # tets: positions of the dominant vertex per adjacent face
def local( el, e, crd ):
    """vertices (tags) of an element in EDGE-V's local order"""
    if el == 'tria3':
        v = sorted( e ); a, b, c = ( crd[t] for t in v )
        return v if ( b[0]-a[0] )*( c[1]-a[1] ) - ( b[1]-a[1] )*( c[0]-a[0] ) > 0 else [ v[0], v[2], v[1] ]
    if el == 'tet4':
        v = sorted( e ); x = np.array( [ crd[t] for t in v ] )
        return v if np.linalg.det( x[1:]-x[0] ) > 0 else [ v[0], v[1], v[3], v[2] ]
    if el == 'quad4r':
        v = sorted( e, key=lambda t: ( round( crd[t][1], 7 ), round( crd[t][0], 7 ) ) ); return [ v[0], v[1], v[3], v[2] ]
    v = sorted( e, key=lambda t: tuple( round( x, 7 ) for x in reversed( crd[t] ) ) ); return [ v[0], v[1], v[3], v[2], v[4], v[5], v[7], v[6] ]

class Mesh:
    """all partitions of a written mesh"""
    def __init__( self, d, case, parts=None ):
        self.case = case; self.el = el = case['mesh']['el']; self.parts = parts or case['ev']['parts']; self.els = []; self.pa = []; self.first = []; self.crd = {}; self.grp = {}; self.h5 = []
        for r in range( self.parts ):
            p = mesh.part_file( d, self.parts, r )
            m = mesh.read( p ) if os.path.exists( p ) else None
            if m is None: raise Fail( 'mesh-file', f'partition {r} of the mesh was not written' )
            _, _, vs, els, grp = m; self.first.append( len( self.els ) )
            for t, x in vs.items():
                if self.crd.setdefault( t, x ) != x: raise Fail( 'mesh-vertices', f'vertex {t} has different coordinates in the partitions' )
            self.els += els; self.pa += [ r ]*len( els )
            for g, f in grp.items(): self.grp.setdefault( g, [] ).append( [ tuple( sorted( x ) ) for x in f ] )
            p = mesh.part_file( d, self.parts, r, ext='.h5' ); s = h5.read( p ) if os.path.exists( p ) else None
            if s is None: raise Fail( 'support-file', f'the support file of partition {r} was not written' )
            self.h5.append( s )
        if os.path.exists( mesh.part_file( d, 0, self.parts ) ): raise Fail( 'mesh-file', 'more partitions than configured' )
        self.loc = [ local( el, e, self.crd ) for e in self.els ]
        # faces and what is on their other side
        nf = len( LFA[el] ); fa = {}; box = cases.box( case['mesh'] ); per = bool( case['ev'].get( 'periodic' ) )
        for i, v in enumerate( self.loc ):
            for j, f in enumerate( LFA[el] ): fa.setdefault( self.face( v, f, box, per ), [] ).append( ( i, j ) )
        self.nb = [ [ None ]*nf for _ in self.els ]
        for k, l in fa.items():
            if len( l ) > 2: raise Fail( 'mesh-faces', 'a face has more than two elements' )
            if len( l ) == 2: ( a, x ), ( b, y ) = l; self.nb[a][x] = ( b, y ); self.nb[b][y] = ( a, x )
        self.tg = None
    def face( self, v, f, box, per ):
        if not per: return tuple( sorted( v[x] for x in f ) )
        # periodic: points on the upper side are those of the lower side
        o = []; x = [ self.crd[ v[y] ] for y in f ]; x = [ [ c for c in y ] for y in x ]
        for i, ( a, b ) in enumerate( box ):
            if all( abs( y[i]-b ) < 1e-6 for y in x ):
                for y in x: y[i] = a
        return tuple( sorted( tuple( int( round( c*1e5 ) ) for c in y ) for y in x ) )
    def get( self, r, n, req=True ):
        v = self.h5[r].get( 'edge_v/' + n )
        if v is None and req: raise Fail( 'support-file', f'partition {r}: {n} is missing' )
        return v
    def groups( self ):
        """time group of every element by its position in the files; order and completeness are checked"""
        if self.tg is not None: return self.tg
        self.tg = []; nG = self.case['ev']['groups']
        for r in range( self.parts ):
            n = sum( 1 for p in self.pa if p == r ); i = self.first[r]
            a, b = [ int( x ) for x in self.get( r, 'n_time_group_elements_inner' ) ], [ int( x ) for x in self.get( r, 'n_time_group_elements_send' ) ]
            if len( a ) != nG or len( b ) != nG: raise Fail( 'group-counts', f'partition {r}: {len(a)} and {len(b)} groups instead of {nG}' )
            if sum( a ) + sum( b ) != n or min( a+b ) < 0: raise Fail( 'group-counts', f'partition {r}: {a} and {b} elements in the groups but {n} elements' )
            for k, l in ( ( 0, a ), ( 1, b ) ):
                for g, c in enumerate( l ):
                    for _ in range( c ):
                        send = any( x is not None and self.pa[x[0]] != r for x in self.nb[i] )
                        if send != ( k == 1 ): raise Fail( 'element-order', f'partition {r}, element {i-self.first[r]}: ' + ( 'communicates but is an inner element' if send else 'is a send element but does not communicate' ) )
                        self.tg.append( g ); i += 1
        return self.tg

def cells( case ):
    vs, els, grp, order, tags, eo = gen.raw( case['mesh'] ); return vs, els, grp, tags, eo
def nan( x ): return not math.isfinite( x )
class Ev( Schedules ):
    """EDGE-V itself under random schedules"""
    distinct = 'sched'; configs = { 'quick': [ 'edgev' ], 'thorough': [ 'edgev' ] }
    n = { 'quick': 1200, 'thorough': 30000 }; per_case = 2
    def case( self, rng, prog, tier, i ):
        el = [ 'tria3', 'tet4', 'quad4r', 'hex8r' ][ i%4 ]; d = gen.DIM[el]
        per = rng.random() < 0.3
        m = cases.rmesh( rng, el, rng.choice( [ 's', 's', 'm', 'm', 'l' ] ) if d == 2 or rng.random() < 0.7 else 's', 106 if per else rng.choice( [ 105, 101, [ rng.choice( [ 105, 101, None ] ) for _ in range( 2*d ) ] ] ) )
        ne = len( cases.geom( m )[1] )
        ev = { 'parts': max( 1, min( rng.choice( [ 1, 2, 2, 3, 4, 5, 6 ] ), ne//5 ) ), 'groups': rng.choice( [ 1, 2, 2, 3, 3, 4, 5 ] ) }
        if per: ev['periodic'] = 106
        if rng.random() < 0.6: ev['fun_dt'] = rng.choice( [ 0.51, 0.6, 0.75, 0.99, 1.0, round( rng.uniform( 0.3, 1 ), 3 ) ] )
        if rng.random() < 0.3: ev['ts_out'] = 'ts.csv'
        if rng.random() < 0.3: ev['an'] = 1
        if rng.random() < 0.3: ev['cen'] = 1
        if rng.random() < 0.12: ev['reorder'] = 1
        c = { 'prog': None, 'mesh': m, 'ev': ev }
        k = rng.random()
        if k < 0.6: self.velocity( rng, c )
        elif k < 0.8 and d == 2: self.tsunami( rng, c )
        if el in ( 'tria3', 'tet4' ) and rng.random() < 0.25: self.refinement( rng, c )
        return c
    def velocity( self, rng, c ):
        m = c['mesh']; d = gen.DIM[m['el']]; bx = cases.box( m )
        if rng.random() < 0.5:
            k = [ round( rng.uniform( -2, 2 ), 2 ) for _ in range( d ) ]; a = round( rng.uniform( 1, 5 ), 3 ); b = round( a*rng.uniform( 0.1, 0.9 ), 3 )
            c['ev']['fn'] = [ 'sin', a, b, k ]
            c['ev']['expr'] = 'vp:=%r+%r*sin(%s);vs:=0.5*vp;qp:=100;qs:=50;' % ( a, b, '+'.join( '(%r)*%s' % ( k[i], 'xyz'[i] ) for i in range( d ) ) )
        else:
            ax = rng.randrange( d ); s = round( bx[ax][0] + ( bx[ax][1]-bx[ax][0] )*rng.uniform( 0.2, 0.8 ), 6 ) + 1.7e-7; lo, hi = round( rng.uniform( 0.5, 2 ), 3 ), round( rng.uniform( 2, 9 ), 3 )
            if rng.random() < 0.5: lo, hi = hi, lo
            c['ev']['fn'] = [ 'step', ax, s, lo, hi ]
            c['ev']['expr'] = 'if( %s < %.17g ) { vp:=%r; } else { vp:=%r; };vs:=0.5*vp;qp:=100;qs:=50;' % ( 'xyz'[ax], s, lo, hi )
    def tsunami( self, rng, c ):
        q = cases.swe( rng, 'swe_%s_c%d' % ( c['mesh']['el'], rng.choice( [ 1, 2 ] ) ) )['ev']['tsunami']; bx = cases.box( c['mesh'] )
        for i, n in ( ( 0, 'x' ), ( 1, 'y' ) ):
            k = len( q[n] ); q[n] = [ round( bx[i][0] - 0.3 + ( bx[i][1]-bx[i][0]+0.6 )*j/( k-1 ), 6 ) for j in range( k ) ]
            # grids which share coordinates with the mesh
            if rng.random() < 0.5:
                u = sorted( set( y[i] for y in cases.geom( c['mesh'] )[0] ) ); u = rng.sample( u, min( len( u ), rng.randint( 1, k-2 ) ) ); q[n] = sorted( [ q[n][0], q[n][-1] ] + u + rng.sample( q[n][1:-1], k-2-len( u ) ) )
        q['expr'] = rng.choice( [ 'min_speed:=sqrt(9.81*max(0.5,-data));max_speed:=min_speed;', 'max_speed:=2+0.1*abs(data)+0.2*x*x;min_speed:=1;' ] )
        c['ev']['tsunami'] = q
    def refinement( self, rng, c ):
        bx = cases.box( c['mesh'] ); s = round( rng.uniform( *bx[0] ), 6 ) + 1.3e-7; f = [ round( rng.uniform( 0.5, 5 ), 3 ) for _ in range( 3 ) ]
        c['ev']['rf'] = [ s ] + f
        c['ev']['ref'] = 'frequency:=%r;if( x < %.17g ) { edges_per_wave_length:=%r; } else { edges_per_wave_length:=%r; }' % ( f[0], s, f[1], f[2] )
    # ---- reference values
    def grid( self, t, z, x ):
        """value of the next grid point in both directions"""
        i, j = bisect.bisect_left( t['y'], x[1] ), bisect.bisect_left( t['x'], x[0] ); return float( np.float32( z[i][j] ) )
    def speed( self, c, x ):
        """maximum and minimum wave speed at a point"""
        e = c['ev']; f = e.get( 'fn' ); t = e.get( 'tsunami' )
        if t:
            v = self.grid( t, t['bath'], x )
            if t['expr'][:3] == 'min': s = math.sqrt( 9.81*max( 0.5, -v ) ); return s, s
            return 2 + 0.1*abs( v ) + 0.2*x[0]*x[0], 1.0
        if not f: return 1.0, 1.0
        if f[0] == 'sin': s = f[1] + f[2]*math.sin( sum( k*y for k, y in zip( f[3], x ) ) )
        else: s = f[3] if x[f[1]] < f[2] else f[4]
        return s, 0.5*s
    def limits( self, c, els ):
        """relative time step limits of elements given by their vertices' coordinates"""
        o = []
        for x in els:
            cen = [ sum( y[i] for y in x )/len( x ) for i in range( 3 ) ]
            v = self.speed( c, cen )[0] if c['ev'].get( 'cen' ) else sum( self.speed( c, y )[0] for y in x )/len( x )
            o.append( gen.in_dia( c['mesh']['el'], x )/v )
        m = min( o ); return [ y/m for y in o ]
    # ---- judgement
    def judge( self, ctx, t, devs=None, devs_out=None ):
        d = ctx.newdir( 'ev' )
        try:
            ctx.ev_files( d, t['case'] ); r = ctx.ev_run( d, t['case'], t['var'], devs, devs_out ); must_ok( r, 'EDGE-V' )
            self.verify( ctx, t, d )
        finally: ctx.drop( d )
    def variation( self, rng, case, tier ): v = schedule( rng, 1, io=rng.random() < 0.2 ); v.pop( 'cfg', None ); return v
    def parts( self, c ): return 1 if c['ev'].get( 'reorder' ) else c['ev']['parts']
    def load( self, d, c ): return Mesh( d, c, self.parts( c ) )

# ------------------------------------------------------------------ C14
class C14( Ev ):
    """EDGE-V for random meshes (all element types, periodic or not), partitions, groups and schedules; the channels of all partitions are compared face by face."""
    def case( self, rng, prog, tier, i ):
        while True:
            c = super().case( rng, prog, tier, i ); c['ev'].pop( 'reorder', None )
            if c['ev']['parts'] > 1: return c
    def verify( self, ctx, t, d ):
        c = t['case']; M = self.load( d, c ); el = M.el; tg = M.groups(); ch = []; nG = c['ev']['groups']; faces = 0
        for r in range( M.parts ):
            s = [ int( x ) for x in M.get( r, 'communication_structure' ) ]
            if not s or len( s ) != 1 + 4*s[0]: raise Fail( 'channels', f'partition {r}: {len(s)} entries for {s[:1]} channels' )
            A = { n: [ int( x ) for x in M.get( r, n ) ] for n in ( 'send_el', 'send_fa', 'recv_el', 'recv_fa', 'send_face_ids', 'send_vertex_ids' ) }
            q = [ s[1+4*i:5+4*i] for i in range( s[0] ) ]; n = sum( x[3] for x in q ); l = {}; p = 0
            for k, v in A.items():
                if len( v ) != n: raise Fail( 'channels', f'partition {r}: {len(v)} entries in {k} for {n} faces' )
            ne = sum( 1 for x in M.pa if x == r )
            for a, b, g, m in q:
                if ( a, b, g ) in l: raise Fail( 'channels', f'partition {r}: channel ({a}, {b}, {g}) is listed twice' )
                if not ( 0 <= a < nG and 0 <= g < nG and 0 <= b < M.parts and b != r and m > 0 ): raise Fail( 'channels', f'partition {r}: channel {(a,b,g,m)}' )
                for k in ( 'send_el', 'recv_el' ):
                    if any( not 0 <= x < ne for x in A[k][p:p+m] ): raise Fail( 'channels', f'partition {r}: unknown element in {k}' )
                l[( a, b, g )] = { k: v[p:p+m] for k, v in A.items() }; p += m
            ch.append( l )
        seen = [ set() for _ in range( M.parts ) ]; seen2 = [ set() for _ in range( M.parts ) ]; box = cases.box( c['mesh'] ); per = bool( c['ev'].get( 'periodic' ) )
        for r in range( M.parts ):
            for ( a, b, g ), A in ch[r].items():
                B = ch[b].get( ( g, r, a ) )
                if B is None: raise Fail( 'channels', f'partition {r} sends ({a}, {b}, {g}), which partition {b} does not know' )
                if len( B['recv_el'] ) != len( A['send_el'] ): raise Fail( 'channels', f'channel ({a}, {b}, {g}) of partition {r}: {len(A["send_el"])} faces are sent, {len(B["recv_el"])} received' )
                for i in range( len( A['send_el'] ) ):
                    w = f'channel ({a}, {b}, {g}) of partition {r}, face {i}'
                    e, f = A['send_el'][i] + M.first[r], A['send_fa'][i]; e2, f2 = B['recv_el'][i] + M.first[b], B['recv_fa'][i]
                    if not ( 0 <= f < len( LFA[el] ) and 0 <= f2 < len( LFA[el] ) ): raise Fail( 'channel-faces', f'{w}: face ids {f}, {f2}' )
                    if M.nb[e][f] != ( e2, f2 ): raise Fail( 'channel-faces', f'{w}: sends face {f} of element {e}, which is next to {M.nb[e][f]}; the other side receives it for face {f2} of element {e2}' )
                    if tg[e] != a or tg[e2] != g: raise Fail( 'channel-groups', f'{w}: time groups {tg[e]}, {tg[e2]}' )
                    if A['send_face_ids'][i] != f2: raise Fail( 'channel-ids', f'{w}: is face {f2} of the other side but stored as {A["send_face_ids"][i]}' )
                    want = 0
                    if el == 'tet4':
                        # the face's first vertex in the adjacent element, through its coordinates
                        def pt( v ):
                            x = list( M.crd[v] ); return x
                        v0 = M.loc[e][ LFA[el][f][0] ]; x0 = pt( v0 ); k = None
                        fx = [ pt( M.loc[e][y] ) for y in LFA[el][f] ]; fy = [ pt( M.loc[e2][y] ) for y in LFA[el][f2] ]
                        sh = [ ( sum( y[j] for y in fy ) - sum( y[j] for y in fx ) )/3 for j in range( 3 ) ]
                        for y in range( 4 ):
                            if all( abs( M.crd[ M.loc[e2][y] ][j] - x0[j] - sh[j] ) < 1e-6 for j in range( 3 ) ): k = y
                        if k is None: raise Fail( 'channel-faces', f'{w}: the faces do not match' )
                        want = VID[f2].index( k )
                    if A['send_vertex_ids'][i] != want: raise Fail( 'channel-ids', f'{w}: vertex id {A["send_vertex_ids"][i]} instead of {want}' )
                    if ( e, f ) in seen[r] or ( e2, f2 ) in seen2[b]: raise Fail( 'channel-faces', f'{w}: is sent or received twice' )
                    seen[r].add( ( e, f ) ); seen2[b].add( ( e2, f2 ) ); faces += 1
        for i, n in enumerate( M.nb ):
            for f, x in enumerate( n ):
                if x is not None and M.pa[x[0]] != M.pa[i]:
                    if ( i, f ) not in seen[M.pa[i]]: raise Fail( 'channel-faces', f'face {f} of element {i-M.first[M.pa[i]]} of partition {M.pa[i]} is never sent' )
                    if ( i, f ) not in seen2[M.pa[i]]: raise Fail( 'channel-faces', f'face {f} of element {i-M.first[M.pa[i]]} of partition {M.pa[i]} is never received' )
        with ctx.lock: self.extra = getattr( self, 'extra', { 'communicated_faces': 0 } ); self.extra['communicated_faces'] += faces

# ------------------------------------------------------------------ C15
class C15( Ev ):
    """EDGE-V for random meshes, velocity models (constant, expressions, bathymetry), groups, partitions and schedules; every element's group is compared with the largest admissible one."""
    def verify( self, ctx, t, d ):
        c = t['case']; M = self.load( d, c ); e = c['ev']; nG = e['groups']; el = M.el
        vs, els, grp, tags, eo = cells( c )
        # the partitions hold the mesh exactly once
        T = { tuple( sorted( tags[v] for v in els[i] ) ): k for k, i in enumerate( eo ) }; pos = []
        for i, x in enumerate( M.els ):
            k = T.pop( tuple( sorted( x ) ), None )
            if k is None: raise Fail( 'mesh-elements', f'partition {M.pa[i]}: element {i-M.first[M.pa[i]]} is unknown or written twice' )
            pos.append( k )
        if T: raise Fail( 'mesh-elements', f'{len(T)} elements were not written' )
        for v, x in enumerate( vs ):
            if tags[v] in M.crd and M.crd[tags[v]] != tuple( x ): raise Fail( 'mesh-vertices', f'vertex {tags[v]} has the coordinates {M.crd[tags[v]]} instead of {x}' )
        for g, fs in grp.items():
            want = {}
            for f in fs: want[ tuple( sorted( tags[v] for v in f ) ) ] = 0
            for l in M.grp.get( g, [] ):
                for f in l:
                    if f not in want: raise Fail( 'mesh-groups', f'group {g} holds an unknown face' )
                    want[f] += 1
            if any( x != 1 for x in want.values() ): raise Fail( 'mesh-groups', f'group {g}: {sum( 1 for x in want.values() if x != 1 )} faces are not written exactly once' )
        # time steps of the groups
        rel = None
        for r in range( M.parts ):
            v = [ float( x ) for x in M.get( r, 'relative_time_steps' ) ]
            if rel is None: rel = v
            elif v != rel: raise Fail( 'time-steps', 'the partitions have different time steps' )
        if len( rel ) != nG+1: raise Fail( 'time-steps', f'{len(rel)} time steps for {nG} groups' )
        if e.get( 'fun_dt' ) is not None and rel[0] != e['fun_dt']: raise Fail( 'time-steps', f'fundamental time step {rel[0]} instead of {e["fun_dt"]}' )
        if not 0 < rel[0] <= 1: raise Fail( 'time-steps', f'fundamental time step {rel[0]}' )
        for g in range( nG-1 ):
            if rel[g+1] != 2*rel[g]: raise Fail( 'time-steps', f'time steps {rel}' )
        if rel[nG] < 1e300: raise Fail( 'time-steps', f'the last interval ends at {rel[nG]}' )
        ts = self.limits( c, [ [ M.crd[v] for v in x ] for x in M.els ] ); tg = M.groups()
        def fix( eps ):
            o = [ max( 0, sum( 1 for g in range( nG ) if rel[g] <= x*( 1+eps ) ) - 1 ) for x in ts ]; q = sorted( range( len( o ) ), key=lambda i: o[i] ); st = list( range( len( o ) ) )
            while st:
                i = st.pop()
                for x in M.nb[i]:
                    if x is not None and o[x[0]] > o[i]+1: o[x[0]] = o[i]+1; st.append( x[0] )
            return o
        lo, hi = fix( -1e-9 ), fix( 1e-9 )
        for i, g in enumerate( tg ):
            w = f'partition {M.pa[i]}, element {i-M.first[M.pa[i]]}'
            if rel[g] > ts[i]*( 1+1e-9 ): raise Fail( 'stability', f'{w}: group {g} advances by {rel[g]:.6g}, the limit is {ts[i]:.6g}' )
            for x in M.nb[i]:
                if x is not None and abs( tg[x[0]]-g ) > 1: raise Fail( 'group-difference', f'{w}: group {g} next to {tg[x[0]]}' )
            if not lo[i] <= g <= hi[i]: raise Fail( 'group', f'{w}: group {g} instead of {lo[i]} (limit {ts[i]:.9g}, time steps {rel})' )
        # optional output in the order of the input and of the output
        inv = {}
        for i, k in enumerate( pos ): inv[k] = i
        vals = lambda f: [ float( x ) for x in open( f'{d}/{f}' ).read().split() ]
        if e.get( 'ts_out' ):
            l = [ x for x in open( f'{d}/ts.csv' ).read().split( '\n' ) if not x.startswith( '#' ) ]
            if l[0] != 'ts_cfl' or l[-1] != '' or len( l ) != len( ts )+2: raise Fail( 'time-step-file', f'{len(l)-2} rows for {len(ts)} elements' )
            for k, x in enumerate( l[1:-1] ):
                if not abs( float( x )-ts[inv[k]] ) <= 6e-5*ts[inv[k]]: raise Fail( 'time-step-file', f'row {k}: {x} instead of {ts[inv[k]]:.6g}' )
        if e.get( 'an' ):
            A = { 'cfl_time_step': [ ts[inv[k]] for k in range( len( ts ) ) ], 'element_time_step_group': [ tg[inv[k]] for k in range( len( ts ) ) ], 'element_id': list( range( len( ts ) ) ) }
            if not e.get( 'reorder' ): A['element_partition'] = [ M.pa[inv[k]] for k in range( len( ts ) ) ]
            for n, want in A.items():
                if not os.path.exists( f'{d}/out_{n}.msh' ): raise Fail( 'annotation', f'{n} was not written' )
                v = vals( f'out_{n}.msh' )
                if len( v ) != len( want ): raise Fail( 'annotation', f'{n}: {len(v)} values for {len(want)} elements' )
                for k, ( x, y ) in enumerate( zip( v, want ) ):
                    if not abs( x-y ) <= 1e-9*max( 1, abs( y ) ): raise Fail( 'annotation', f'{n}: element {k} has {x} instead of {y}' )

# ------------------------------------------------------------------ C16
KINDS = ( 'enospc', 'eio', 'eacces', 'short', 'eintr' )
class C16( Ev ):
    """EDGE-V under random schedules, numbers of threads and output errors, compared with its undisturbed run; derived grid values and refinements with a reference."""
    n = { 'quick': 1200, 'thorough': 30000 }; per_case = 4
    def variation( self, rng, case, tier ):
        v = super().variation( rng, case, tier )
        if rng.random() < 0.6: v['pos'] = rng.random(); v['kind'] = rng.choice( [ 'enospc', 'enospc', 'eio', 'eacces', 'short', 'eintr' ] ) + rng.choice( [ '', '+', '+' ] ) + rng.choice( [ '', '', '.h5', 'ts', 'ref' ] ).join( [ ',', '' ] )
        return v
    def content( self, d ):
        o = {}
        for f in sorted( glob.glob( d + '/*' ) ):
            n = os.path.basename( f )
            if n in ( 'sim.out', 'sim.trace', 'ev.xml', 'mesh.msh', 'devs.in', 'bath.h5' ) or n.startswith( 'disp_' ): continue
            if n.endswith( '.h5' ): s = h5.read( f ); o[n] = None if s is None else { k: ( v.shape, v.tobytes() ) for k, v in s.items() }
            else: o[n] = open( f, 'rb' ).read()
        return o
    def judge( self, ctx, t, devs=None, devs_out=None ):
        c = t['case']
        def ref():
            d = ctx.newdir( 'ev' ); ctx.ev_files( d, c ); r = ctx.ev_run( d, c, { 'threads': 1 } ); must_ok( r, 'EDGE-V' ); self.verify( ctx, t, d ); o = self.content( d ); ctx.drop( d ); return r, o
        r0, want = ctx.cached( 'c16' + key( c ), ref )
        v = dict( t['var'] ); kind = v.pop( 'kind', None ); pos = v.pop( 'pos', 0 )
        if kind:
            k, _, m = kind.partition( ',' ); s = k.endswith( '+' ); k = k.rstrip( '+' ); ops = max( 1, r0['counts'].get( 'io_ops', 1 ) )
            v['io_faults'] = '%d,%s,%d,%s;' % ( int( pos*ops/( 3 if m else 1 ) ), k, s or bool( m ), m )
        d = ctx.newdir( 'ev' )
        try:
            ctx.ev_files( d, c ); r = ctx.ev_run( d, c, v, devs, devs_out )
            hit = any( r['counts'].get( 'io_' + k ) for k in KINDS )
            if not hit or kind[:5] in ( 'short', 'eintr' ): must_ok( r, 'EDGE-V with short or interrupted writes' if hit else 'EDGE-V' )
            elif r['status'] in ( 'deadlock', 'noprogress', 'tickcap', 'wall' ): raise Fail( 'hang', f'EDGE-V does not end after a failed output operation ({r["status"]})' )
            if r['status'] == 'ok':
                got = self.content( d )
                for n in sorted( set( want ) | set( got ) ):
                    if n not in got: raise Fail( 'missing-file', f'EDGE-V reported success, but {n} is missing' )
                    if n not in want: raise Fail( 'unknown-file', f'unexpected file {n}' )
                    if got[n] is None: raise Fail( 'file-content', f'EDGE-V reported success, but {n} is not readable' )
                    if got[n] != want[n]: raise Fail( 'file-content', f'EDGE-V reported success, but {n} differs from the undisturbed run: ' + ( orc.diff( want[n], got[n] ) if isinstance( got[n], bytes ) else str( [ k for k in want[n] if got[n].get( k ) != want[n][k] ][:5] ) ) )
        finally: ctx.drop( d )
    def verify( self, ctx, t, d ):
        c = t['case']; e = c['ev']; M = self.load( d, c ); M.groups(); el = M.el
        ts = e.get( 'tsunami' )
        if ts:
            for r in range( M.parts ):
                ids = [ i for i, p in enumerate( M.pa ) if p == r ]
                for n, z in [ ( 'bath', ts['bath'] ) ] + [ ( 'disp_%d' % i, z ) for i, z in enumerate( ts['disp'] ) ]:
                    v = M.get( r, n )
                    if len( v ) != len( ids ): raise Fail( 'derived', f'partition {r}: {len(v)} values in {n} for {len(ids)} elements' )
                    for k, i in enumerate( ids ):
                        x = [ self.grid( ts, z, M.crd[y] ) for y in M.els[i] ]; w = sum( x )/len( x ); sc = max( abs( y ) for y in x )
                        if n == 'bath' and abs( w-ts['dry'] ) < 1e-5*sc: continue
                        if n == 'bath' and w > ts['dry']: w = max( w, -ts['dry'] )
                        if not abs( float( v[k] )-w ) <= 2e-6*sc + 1e-30: raise Fail( 'derived', f'partition {r}, element {k}: {n} is {float(v[k])} instead of {w}' )
        if e.get( 'ref' ):
            if not os.path.exists( d + '/ref.msh4' ): raise Fail( 'refinement', 'the refinement was not written' )
            tok = open( d + '/ref.msh4' ).read().split(); vs, els, grp, tags, eo = cells( c ); s, f, e1, e2 = e['rf']; dm = gen.DIM[el]
            def sec( n ):
                try: return tok[ tok.index( '$' + n )+1 : tok.index( '$End' + n ) ]
                except ValueError: raise Fail( 'refinement', f'the section {n} is incomplete' )
            # vertices are numbered by tags
            o = sorted( range( len( vs ) ), key=lambda v: tags[v] ); num = { v: k for k, v in enumerate( o ) }; N = sec( 'Nodes' ); nv = len( vs )
            if [ int( x ) for x in N[:8] ] != [ 1, nv, 0, nv-1, dm, 1, 0, nv ] or len( N ) != 8 + 4*nv: raise Fail( 'refinement', f'nodes {N[:8]}' )
            X = np.array( N[8+nv:], float ).reshape( nv, 3 )
            if not np.all( np.abs( X-np.array( [ vs[v] for v in o ] ) ) <= 1e-5*( 1+np.abs( X ) ) ): raise Fail( 'refinement', 'wrong coordinates' )
            E = [ int( x ) for x in sec( 'Elements' ) ]; k = len( els[0] )
            if E[:8] != [ 1, len( els ), 0, len( els )-1, dm, 1, gen.GM[el], len( els ) ] or len( E ) != 8 + len( els )*( k+1 ): raise Fail( 'refinement', f'elements {E[:8]}' )
            got = sorted( tuple( sorted( E[9+i*(k+1):9+i*(k+1)+k] ) ) for i in range( len( els ) ) )
            if got != sorted( tuple( sorted( num[v] for v in x ) ) for x in els ): raise Fail( 'refinement', 'wrong elements' )
            D = sec( 'NodeData' )[-2*nv:]; want = [ math.inf ]*nv
            for x in els:
                cx = sum( vs[v][0] for v in x )/k; l = 1/( f*( e1 if cx < s else e2 ) )
                for v in x: want[num[v]] = min( want[num[v]], self.speed( c, vs[v] )[1]*l )
            for i in range( nv ):
                if int( D[2*i] ) != i or not abs( float( D[2*i+1] )-want[i] ) <= 2e-5*want[i]: raise Fail( 'refinement', f'vertex {i}: target length {D[2*i+1]} instead of {want[i]:.6g}' )
