# Random cases: problems for EDGE-V and EDGE. Everything is JSON and a function of the random number generator.
import math
import gen, poly
from engine import key
ORDER = { 'o1': 1, 'o2': 2, 'o3': 3, 'o4': 4, 'c1': 1 }
def info( prog ):
    t = prog.split( '_' ); el = t[1]; o = ORDER.get( t[2], 1 ); cr = 1
    for x in t[3:]:
        if x[0] == 'c': cr = int( x[1:] )
    return t[0], el, o, cr
def prec( prog ): return 4 if prog.endswith( 'f32' ) or prog.startswith( 'swe' ) else 8
def nq( prog ):
    e, el, _, _ = info( prog ); d = gen.DIM[el]
    return { 'el': 5 if d == 2 else 9, 've': 5 if d == 2 else 9, 'ad': 1, 'swe': 1 + d }[e]
def full( d, vals ):
    """a velocity model of one material"""
    return [ [ [ [ [0]*d, [1] + [0]*(d-1) ] ], vals ], [ [ [ [0]*d, [-1] + [0]*(d-1) ] ], vals ] ]
def rmesh( rng, el, size='m', bnd=None, jitter=None, grading=None ):
    d = gen.DIM[el]
    R = { ( 's', 2 ): ( 3, 5 ), ( 'm', 2 ): ( 4, 8 ), ( 'l', 2 ): ( 8, 12 ), ( 's', 3 ): ( 2, 3 ), ( 'm', 3 ): ( 2, 4 ), ( 'l', 3 ): ( 4, 6 ) }[( size, d )]
    n = [ rng.randint( *R ) for _ in range( d ) ]
    if bnd == 106: n = [ max( 3, x ) for x in n ]
    ln = [ round( rng.uniform( 0.7, 1.3 )*x, 3 ) for x in n ]
    g = grading or [ rng.choice( [ [1], [1,2], [1,1,3], [1,4], [1,2,6] ] ) for _ in range( d ) ]
    return { 'el': el, 'n': n, 'len': ln, 'grading': g, 'jitter': rng.choice( [ 0, 0.1, 0.25 ] ) if jitter is None else jitter, 'bnd': bnd if isinstance( bnd, list ) else [ bnd ]*2*d, 'seed': rng.randrange( 1 << 30 ), 'origin': [ round( rng.uniform( -3, 3 ), 3 ) for _ in range( d ) ] }
_G = {}
def geom( m ):
    k = key( m )
    if k not in _G:
        if len( _G ) > 300: _G.clear()
        vs, els, grp, _, _, _ = gen.raw( m )
        _G[k] = ( vs, els, [ gen.in_dia( m['el'], [ vs[v] for v in e ] ) for e in els ] )
    return _G[k]
def box( m ):
    o = m.get( 'origin', [0]*3 ); return [ ( o[i], o[i] + m['len'][i] ) for i in range( gen.DIM[m['el']] ) ]
def dts( m, order, vel ):
    """time step limits of the elements as used by EDGE for a constant wave speed"""
    return [ 0.5*x/vel/( 2*order-1 ) for x in geom( m )[2] ]
def point( rng, m, margin=0.02 ):
    return [ round( rng.uniform( a + margin*(b-a), b - margin*(b-a) ), 5 ) for a, b in box( m ) ]
def materials( rng ):
    rho = round( rng.uniform( 0.5, 3 ), 3 ); mu = round( rng.uniform( 0.3, 3 ), 3 ); lam = round( rng.uniform( 0.3, 4 ), 3 )
    return [ rho, lam, mu ], math.sqrt( ( lam + 2*mu )/rho )
def waves( rng, prog, m ):
    n = nq( prog ); d = gen.DIM[ m['el'] ]; o = []
    for q in range( n ):
        k = [ round( rng.uniform( -2, 2 ), 2 ) for _ in range( d ) ]
        o.append( 'q[%d]:=%.3f*sin(%s+%.2f);' % ( q, rng.uniform( 0.2, 1.5 ), '+'.join( '(%.2f)*%s' % ( k[i], 'xyz'[i] ) for i in range( d ) ), rng.uniform( 0, 6 ) ) )
    return ''.join( o )
def seis( rng, prog, parts=None, size='m', steps=( 6, 20 ), bnd=None, recv=True, wf=False, groups=None, hetero=None, sync=None, err=False, jitter=None, grading=None ):
    """a wave propagation problem with random mesh, clustering, material, initial values, output"""
    eq, el, order, cr = info( prog ); d = gen.DIM[el]
    b = bnd if bnd is not None else rng.choice( [ 105, 101, 'mix', 106 ] )
    if b == 'mix': b = [ rng.choice( [ 105, 101 ] ) for _ in range( 2*d ) ]
    m = rmesh( rng, el, size, b, jitter, grading )
    mat, vp = materials( rng )
    ne = len( geom( m )[1] )
    p = parts or rng.choice( [ 1, 2, 2, 3, 4, 5, 7 ] ); p = max( 1, min( p, ne//4 ) )
    ev = { 'parts': p, 'groups': groups or rng.choice( [ 1, 2, 3, 4 ] ) }
    if b == 106: ev['periodic'] = 106
    if rng.random() < 0.3: ev['fun_dt'] = rng.choice( [ 0.51, 0.75, 0.99 ] )
    vel = full( d, mat ); 
    if eq == 've': vel = full( d, mat + [ rng.choice( [ 50, 120 ] ), rng.choice( [ 40, 90 ] ) ] )
    if hetero or ( hetero is None and rng.random() < 0.35 ):
        # second material on one side of a plane (EDGE only: EDGE-V's clustering assumes a constant velocity)
        mid = [ a + ( c-a )*( 0.5+0.1*( rng.random()-0.5 ) ) for a, c in box( m ) ]; ax = rng.randrange( d ); nv = [ 0 ]*d; nv[ax] = 1
        f = rng.choice( [ 0.6, 0.9 ] ); m2 = [ mat[0]*rng.choice( [ 1, 2 ] ), round( mat[1]*f, 3 ), round( mat[2]*f*rng.choice( [ 0.5, 1 ] ), 3 ) ]
        if math.sqrt( ( m2[1]+2*m2[2] )/m2[0] ) < vp: vel = [ [ [ [ mid, nv ] ], m2 + vel[0][1][3:] ] ] + vel
    dt = min( dts( m, order, vp ) )
    n = rng.randint( *steps )
    end = dt*n*rng.uniform( 0.85, 1.0 )
    e = { 'vel': vel, 'init': [ waves( rng, prog, m ) for _ in range( cr ) ], 'end': end }
    if eq == 've': e['att'] = [ 1.0, 100.0 ]
    s = sync if sync is not None else rng.choice( [ None, 'few', 'many' ] )
    if s == 'few': e['sync'] = end*rng.uniform( 0.3, 0.9 )
    elif s == 'many': e['sync'] = end*rng.uniform( 0.06, 0.3 )
    elif isinstance( s, float ): e['sync'] = s
    if recv: e['recv'] = { 'dir': 'recv', 'freq': end/rng.choice( [ 3.3, 11.7, 60.3, 150.7 ] ), 'pts': [ ( 'r%d' % i, point( rng, m ) ) for i in range( rng.randint( 1, 6 ) ) ] }
    if wf: e['wf'] = { 'type': rng.choice( [ 'vtk_ascii', 'vtk_binary' ] ), 'file': 'wf/w', 'int': end/rng.choice( [ 1.7, 2.3, 4.6 ] ) }
    if err: e['err'] = { 'type': 'file', 'file': 'err.xml', 'ref': [ waves( rng, prog, m ) for _ in range( cr ) ] }
    return { 'prog': prog, 'mesh': m, 'ev': ev, 'edge': e }
ADV = [ 1.0, 0.5, -1.0 ]
CFL_ADV = [ 0.45, 0.9, 0.8, 0.7 ]
def adv_dts( m, order ):
    v = math.sqrt( sum( x*x for x in ADV[:gen.DIM[m['el']]] ) ); return [ 0.5*CFL_ADV[order-1]*x/v/( 2*order-1 ) for x in geom( m )[2] ]
def output( rng, e, m, end, recv, wf ):
    if recv: e['recv'] = { 'dir': 'recv', 'freq': end/rng.choice( [ 3.3, 11.7, 60.3, 150.7 ] ), 'pts': [ ( 'r%d' % i, point( rng, m ) ) for i in range( rng.randint( 1, 6 ) ) ] }
    if wf: e['wf'] = { 'type': rng.choice( [ 'vtk_ascii', 'vtk_binary' ] ), 'file': 'wf/w', 'int': end/rng.choice( [ 1.7, 2.3, 4.6 ] ) }
def syncs( rng, e, end, sync ):
    s = sync if sync is not None else rng.choice( [ None, 'few', 'many' ] )
    if s == 'few': e['sync'] = end*rng.uniform( 0.3, 0.9 )
    elif s == 'many': e['sync'] = end*rng.uniform( 0.06, 0.3 )
    elif isinstance( s, float ): e['sync'] = s
def adv( rng, prog, parts=None, size='m', steps=( 6, 20 ), bnd=None, wf=False, groups=None, sync=None, jitter=None, grading=None ):
    eq, el, order, cr = info( prog ); d = gen.DIM[el]
    b = bnd if bnd is not None else rng.choice( [ 105, 106 ] )
    m = rmesh( rng, el, size, b, jitter, grading )
    ne = len( geom( m )[1] )
    p = parts or rng.choice( [ 1, 2, 2, 3, 4, 5, 7 ] ); p = max( 1, min( p, ne//4 ) )
    ev = { 'parts': p, 'groups': groups or rng.choice( [ 1, 2, 3, 4 ] ) }
    if b == 106: ev['periodic'] = 106
    if rng.random() < 0.3: ev['fun_dt'] = rng.choice( [ 0.51, 0.75, 0.99 ] )
    end = min( adv_dts( m, order ) )*rng.randint( *steps )*rng.uniform( 0.85, 1.0 )
    e = { 'init': [ waves( rng, prog, m ) for _ in range( cr ) ], 'end': end }
    syncs( rng, e, end, sync ); output( rng, e, m, end, False, wf )
    return { 'prog': prog, 'mesh': m, 'ev': ev, 'edge': e }
def swe( rng, prog, size='m', steps=( 6, 20 ), bnd=None, wf=False, sync=None, rest=False, dry=None ):
    """water over a random bathymetry, given to EDGE-V as grids"""
    eq, el, order, cr = info( prog ); d = 2
    b = bnd if bnd is not None else rng.choice( [ 105, 101, 'mix' ] )
    if b == 'mix': b = [ rng.choice( [ 105, 101 ] ) for _ in range( 4 ) ]
    m = rmesh( rng, el, size, b )
    bx = box( m ); depth = rng.choice( [ 5.0, 50.0 ] )
    nx, ny = rng.randint( 4, 14 ), rng.randint( 4, 14 )
    ax = [ [ round( bx[i][0] - 0.5 + ( bx[i][1]-bx[i][0]+1.0 )*k/( n-1 ), 6 ) for k in range( n ) ] for i, n in ( ( 0, nx ), ( 1, ny ) ) ]
    rough = rng.choice( [ 0.0, 0.1, 0.4 ] )
    bath = [ [ round( -depth*( 1 + rough*( 2*rng.random()-1 ) ), 4 ) for _ in range( nx ) ] for _ in range( ny ) ]
    if dry if dry is not None else rng.random() < 0.3:
        i0, j0 = rng.randrange( ny ), rng.randrange( nx )
        for i in range( ny ):
            for j in range( nx ):
                if abs( i-i0 ) + abs( j-j0 ) <= 2: bath[i][j] = 3*depth
    disp = [ [ [ 0.0 if rest else round( 0.05*depth*( 2*rng.random()-1 ), 4 ) for _ in range( nx ) ] for _ in range( ny ) ] for _ in range( cr ) ]
    ev = { 'parts': 1, 'groups': 1, 'tsunami': { 'x': ax[0], 'y': ax[1], 'bath': bath, 'disp': disp, 'dry': -0.02*depth } }
    dt = 0.45*min( geom( m )[2] )/math.sqrt( 9.81*depth*1.5 )
    end = dt*rng.randint( *steps )*rng.uniform( 0.85, 1.0 )
    e = { 'end': end, 'init': [ 'q[0]:=0;q[1]:=0;q[2]:=0;' ]*cr }
    syncs( rng, e, end, sync ); output( rng, e, m, end, False, wf )
    return { 'prog': prog, 'mesh': m, 'ev': ev, 'edge': e }
def sources( rng, case, n=None, where=None ):
    """adds kinematic point sources"""
    m = case['mesh']; q = nq( case['prog'] ); cr = info( case['prog'] )[3]; end = case['edge']['end']; ps = []
    for _ in range( cr ):
        k = n or rng.choice( [ 1, 3, 8, 20 ] ); ser = []; par = []
        for _ in range( k ):
            dt = end*rng.choice( [ 0.01, 0.07, 0.3 ] ); on = rng.choice( [ 0.0, end*rng.random()*0.7 ] )
            ser.append( [ round( 2*rng.random()-1, 3 ) for _ in range( rng.randint( 2, 30 ) ) ] ); par.append( [ round( on, 6 ), max( 1e-5, round( dt, 6 ) ) ] )
        ps.append( { 'pts': [ where( rng ) if where else point( rng, m ) for _ in range( k ) ], 'scal': [ [ round( 2*rng.random()-1, 3 ) for _ in range( q ) ] for _ in range( k ) ], 'par': par, 'series': ser } )
    case['ps'] = ps
