# Oracles and parsers: what a simulated run left behind.
import glob, os, re
import numpy as np
from engine import Fail

def snap( run, step, prec=8 ):
    """all ranks' snapshots of a synchronization point: list of (rank, time, coords[nEls][nVes][3], dofs[nEls][-1])"""
    o = []
    for f in sorted( glob.glob( f'{run.dir}/snap_*_{step}.bin' ), key=lambda f: int( f.rsplit( '_', 2 )[1] ) ):
        b = open( f, 'rb' ).read(); h = np.frombuffer( b, 'f8', 5 )
        t, n, by, nv, r = h[0], int( h[1] ), int( h[2] ), int( h[3] ), int( h[4] )
        c = np.frombuffer( b, 'f8', n*nv*3, 40 ).reshape( n, nv, 3 )
        d = np.frombuffer( b, 'f8' if prec == 8 else 'f4', n*by//prec, 40 + n*nv*24 ).reshape( n, by//prec )
        o.append( ( r, t, c, d ) )
    return o
def steps( run ):
    return sorted( { int( f.rsplit( '_', 1 )[1][:-4] ) for f in glob.glob( f'{run.dir}/snap_*.bin' ) } )
def elems( run, step, prec=8 ):
    """dictionary: element (sorted rounded vertex coordinates) -> (dofs, coords, rank); an element owned twice is an error"""
    o = {}; t = None
    for r, tt, c, d in snap( run, step, prec ):
        t = tt
        for e in range( len( c ) ):
            k = ekey( c[e] )
            if k in o: raise Fail( 'element-twice', f'element {k} is owned by rank {o[k][2]} and {r}' )
            o[k] = ( d[e], c[e], r )
    return t, o
def ekey( c ): return tuple( sorted( tuple( int( round( x*1e6 ) ) for x in v ) for v in c ) )

def recvs( d, sub='recv' ):
    """receiver files: {name: [(rank dir, [rows], complete last row)]}"""
    o = {}
    for f in sorted( glob.glob( f'{d}/{sub}/*/*.csv' ) ):
        r = os.path.basename( os.path.dirname( f ) ); n = os.path.basename( f )[:-4]
        o.setdefault( n, [] ).append( ( r, open( f, 'rb' ).read() ) )
    return o
def rows( b ):
    t = b.decode( errors='replace' ); l = t.split( '\n' )
    if l and l[-1] == '': l = l[:-1]
    l = [ x for x in l if not x.startswith( '#' ) ]
    return l[0] if l else None, l[1:]
def vals( rs ): return np.array( [ [ float( x ) for x in r.split( ',' ) ] for r in rs ] )
def body( b ): return b'\n'.join( x for x in b.split( b'\n' ) if not x.startswith( b'#' ) )

def files( d, skip=( 'sim.out', 'sim.trace', 'edge.xml', 'devs.in' ), raw=False ):
    """content of all output files, comment lines removed from receiver files"""
    o = {}
    for r, _, fs in os.walk( d ):
        for f in fs:
            p = os.path.relpath( os.path.join( r, f ), d )
            if p in skip or re.match( r'snap_\d+_\d+\.bin$', f ): continue
            b = open( os.path.join( r, f ), 'rb' ).read()
            o[p] = body( b ) if f.endswith( '.csv' ) and not raw else b
    return o
def syncs( run ): return sorted( ( s[0], s[1], s[2], s[3], s[4] ) for s in run.res['sync'] )

def same( ref, run, what='solution' ):
    a, b = syncs( ref ), syncs( run )
    if a != b:
        if len( a ) != len( b ): raise Fail( 'sync-points', f'{len(b)} instead of {len(a)} synchronization records' )
        for x, y in zip( a, b ):
            if x != y: raise Fail( 'solution-differs', f'rank {x[0]} synchronization {x[1]}: {what} {y[2:]} instead of {x[2:]}' )
    fa, fb = files( ref.dir ), files( run.dir )
    if sorted( fa ) != sorted( fb ): raise Fail( 'files-differ', f'output files differ: {sorted( set( fa ) ^ set( fb ) )[:4]}' )
    for p in fa:
        if fa[p] != fb[p]: raise Fail( 'file-content', f'{p} differs: ' + diff( fa[p], fb[p] ) )
def diff( a, b ):
    la, lb = a.split( b'\n' ), b.split( b'\n' )
    for i in range( max( len( la ), len( lb ) ) ):
        x = la[i] if i < len( la ) else b'<end>'; y = lb[i] if i < len( lb ) else b'<end>'
        if x != y: return f'line {i}: {y[:90]!r} instead of {x[:90]!r} ({len(lb)} / {len(la)} lines)'
    return ''

def close( a, b, tol, what, scale=None ):
    a = np.asarray( a, float ); b = np.asarray( b, float )
    s = scale if scale is not None else max( 1e-300, np.max( np.abs( a ) ) if a.size else 1 )
    if not np.all( np.isfinite( b ) ): raise Fail( 'not-finite', f'{what}: not a finite number' )
    d = np.max( np.abs( a-b ) )/s if a.size else 0
    if not d <= tol: raise Fail( 'value', f'{what}: relative difference {d:.3e} (tolerance {tol:.1e})' )
    return d

def same_elements( ref, run, step, tol, prec=8, what='' ):
    ta, a = elems( ref, step, prec ); tb, b = elems( run, step, prec )
    if ta is None or tb is None: raise Fail( 'sync-points', f'no solution at synchronization {step}' )
    if abs( ta-tb ) > 1e-9*max( 1, abs( ta ) ): raise Fail( 'sync-time', f'synchronization {step} at {tb} instead of {ta}' )
    if set( a ) != set( b ): raise Fail( 'elements', f'{what}: {len(set(b)-set(a))} unknown and {len(set(a)-set(b))} missing elements' )
    # elements are compared through their vertices' local order: EDGE sorts vertices by global ids, which partitioning may permute
    return ta, a, b

def field( run, step, prog ):
    """the whole solution: time, {element: (values [qty][mode][fused run], coordinates, rank, position)}"""
    import cases
    eq, el, order, cr = cases.info( prog ); nq = cases.nq( prog ); o = {}; t = None
    for r, tt, c, d in snap( run, step, cases.prec( prog ) ):
        t = tt
        for e in range( len( c ) ):
            k = ekey( c[e] )
            if k in o: raise Fail( 'element-twice', f'element {k} is owned by rank {o[k][2]} and {r}' )
            o[k] = ( d[e].astype( float ).reshape( nq, -1, cr ), c[e], r, e )
    if t is None: raise Fail( 'sync-points', f'no solution at synchronization {step}' )
    return t, o
def finite( f, what='solution' ):
    for k, v in f.items():
        if not np.all( np.isfinite( v[0] ) ): raise Fail( 'not-finite', f'{what}: element at {v[1].mean(0)} holds numbers that are not finite' )
def ncols( b ): return len( b.split( ',' ) )
