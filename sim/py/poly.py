# Polynomials in x,y,z,t (dictionaries of exponents) and exact polynomial solutions of linear hyperbolic systems.
import numpy as np
def deriv( p, i ):
    o = {}
    for e, c in p.items():
        if e[i]: f = list( e ); f[i] -= 1; o[tuple( f )] = o.get( tuple( f ), 0 ) + c*e[i]
    return o
def add( p, q, s=1.0 ):
    o = dict( p )
    for e, c in q.items(): o[e] = o.get( e, 0 ) + s*c
    return o
def at( p, x, t ):
    x = np.asarray( x, float ); r = np.zeros( len( x ) ) + 0*np.asarray( t )
    for e, c in p.items():
        v = c*np.asarray( t, float )**e[3]
        for i in range( x.shape[1] ): v = v*x[:,i]**e[i]
        r = r + v
    return r
def expr( p ):
    t = []
    for e, c in sorted( p.items() ):
        s = '(%.17g)' % c
        for i, n in enumerate( 'xyz' ): s += ( '*' + n )*e[i]
        t.append( s )
    return '+'.join( t ) if t else '0'
def space( rng, d, deg, amp=1.0 ):
    o = {}
    for i in range( deg+1 ):
        for j in range( deg+1-i ):
            for k in range( deg+1-i-j if d == 3 else 1 ): o[(i,j,k,0)] = round( amp*( 2*rng.random()-1 ), 3 )
    return o
def solve( mats, q0, deg ):
    """q_t = sum_d mats[d] q_xd: Taylor expansion in time, finite for polynomials"""
    n = len( q0 ); cur = q0; out = [ dict( q ) for q in q0 ]; f = 1.0
    for k in range( 1, deg+1 ):
        nx = [ {} for _ in range( n ) ]
        for d, A in enumerate( mats ):
            ds = [ deriv( q, d ) for q in cur ]
            for i in range( n ):
                for j in range( n ):
                    if A[i][j]: nx[i] = add( nx[i], ds[j], A[i][j] )
        cur = nx; f *= k
        for i in range( n ):
            for e, c in cur[i].items():
                g = ( e[0], e[1], e[2], k ); out[i][g] = out[i].get( g, 0 ) + c/f
    return out
def elastic( d, rho, lam, mu ):
    n = 5 if d == 2 else 9; M = [ np.zeros( ( n, n ) ) for _ in range( d ) ]
    if d == 2: S = [ [ 0, 2 ], [ 2, 1 ] ]; off = 3
    else: S = [ [ 0, 3, 5 ], [ 3, 1, 4 ], [ 5, 4, 2 ] ]; off = 6
    for i in range( d ):
        for j in range( d ):
            M[j][off+i][S[i][j]] += 1./rho                       # rho v_i,t = sum_j sigma_ij,j
            if i == j:
                for k in range( d ): M[k][S[i][i]][off+k] += lam  # lambda div v
                M[i][S[i][i]][off+i] += 2*mu
            elif i < j: M[j][S[i][j]][off+i] += mu; M[i][S[i][j]][off+j] += mu
    return M
