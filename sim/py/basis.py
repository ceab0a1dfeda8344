# Evaluation of the DG solution: EDGEpre's basis functions (as generated during the build) on affine elements.
import json, os
import numpy as np
import runner
_C = {}
def funs( el, deg ):
    k = ( el, deg )
    if k not in _C: _C[k] = [ compile( e, 'basis', 'eval' ) for e in json.load( open( f'{runner.B}/pre/{el}_{deg}/basis.json' ) ) ]
    return _C[k]
def evaluate( el, deg, xi ):
    """xi [n][dim] -> [n][modes]"""
    xi = np.asarray( xi, float ); v = { f'xi_{i+1}': xi[:,i] for i in range( xi.shape[1] ) }; v['sqrt'] = np.sqrt
    return np.array( [ np.broadcast_to( eval( f, {}, v ), len( xi ) ) for f in funs( el, deg ) ] ).T
def frame( el, c ):
    """origin and edge vectors of an element from its vertices"""
    d = 2 if el in ( 'tria3', 'quad4r' ) else 3
    ix = { 'tria3': ( 1, 2 ), 'tet4': ( 1, 2, 3 ), 'quad4r': ( 1, 3 ), 'hex8r': ( 1, 3, 4 ) }[el]
    return c[0][:d], np.array( [ c[i][:d] - c[0][:d] for i in ix ] ).T
def to_ref( el, c, x ):
    o, J = frame( el, c ); return np.linalg.solve( J, ( np.asarray( x )[:,:len( o )] - o ).T ).T
def to_phy( el, c, xi ):
    o, J = frame( el, c ); return o + np.asarray( xi ) @ J.T
REF = { 'tria3': [[.2,.3],[.6,.1],[.1,.7],[.33,.33],[.45,.5],[0.02,0.05]], 'quad4r': [[.2,.3],[.8,.1],[.1,.7],[.5,.5],[.9,.9],[.3,.95]],
        'tet4': [[.1,.2,.3],[.6,.1,.1],[.1,.6,.2],[.25,.25,.25],[.05,.1,.7],[.3,.3,.1],[.02,.4,.5],[.4,.05,.4],[.5,.4,.05],[.01,.01,.02]],
        'hex8r': [[.1,.2,.3],[.9,.1,.1],[.1,.8,.2],[.5,.5,.5],[.9,.9,.1],[.9,.1,.8],[.1,.9,.9],[.95,.8,.9]] }
def sample( el, deg, c, q, x=None ):
    """values at points: q [qty][modes] (or flattened with fused runs) -> points, values [n][qty]"""
    if x is None: xi = np.array( REF[el] ); x = to_phy( el, c, xi )
    else: xi = to_ref( el, c, x )
    return x, evaluate( el, deg, xi ) @ q.T
def vol( el, c ):
    o, J = frame( el, c ); return abs( np.linalg.det( J ) ) / { 'tria3': 2., 'tet4': 6. }.get( el, 1. )
_M = {}
def mass( el, deg ):
    """diagonal of the reference mass matrix by quadrature of the basis (independent of EDGEpre's integration)"""
    k = ( el, deg )
    if k not in _M:
        g, w = np.polynomial.legendre.leggauss( deg+3 ); g = ( g+1 )/2; w = w/2
        d = 2 if el in ( 'tria3', 'quad4r' ) else 3
        G = np.array( np.meshgrid( *[ g ]*d, indexing='ij' ) ).reshape( d, -1 ).T; W = np.prod( np.array( np.meshgrid( *[ w ]*d, indexing='ij' ) ).reshape( d, -1 ), axis=0 )
        if el == 'tria3': x = np.array( [ G[:,0], G[:,1]*( 1-G[:,0] ) ] ).T; W = W*( 1-G[:,0] )
        elif el == 'tet4': x = np.array( [ G[:,0], G[:,1]*( 1-G[:,0] ), G[:,2]*( 1-G[:,0] )*( 1-G[:,1] ) ] ).T; W = W*( 1-G[:,0] )**2*( 1-G[:,1] )
        else: x = G
        B = evaluate( el, deg, x ); _M[k] = B.T @ ( B*W[:,None] )
    return _M[k]
_Q = {}
def quad( el, n ):
    """quadrature points and weights of the reference element, exact for degree < 2n-3"""
    k = ( el, n )
    if k not in _Q:
        g, w = np.polynomial.legendre.leggauss( n ); g = ( g+1 )/2; w = w/2
        d = 2 if el in ( 'tria3', 'quad4r' ) else 3
        G = np.array( np.meshgrid( *[ g ]*d, indexing='ij' ) ).reshape( d, -1 ).T; W = np.prod( np.array( np.meshgrid( *[ w ]*d, indexing='ij' ) ).reshape( d, -1 ), axis=0 )
        if el == 'tria3': x = np.array( [ G[:,0], G[:,1]*( 1-G[:,0] ) ] ).T; W = W*( 1-G[:,0] )
        elif el == 'tet4': x = np.array( [ G[:,0], G[:,1]*( 1-G[:,0] ), G[:,2]*( 1-G[:,0] )*( 1-G[:,1] ) ] ).T; W = W*( 1-G[:,0] )**2*( 1-G[:,1] )
        else: x = G
        _Q[k] = ( x, W )
    return _Q[k]
def det( el, c ):
    o, J = frame( el, c ); return abs( np.linalg.det( J ) )
