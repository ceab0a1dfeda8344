# What EDGE-V wrote: partitioned meshes (text format of the gmsh stand-in) and their HDF5 supplements.
import os
import numpy as np
import gen, h5
NV = { 2: 3, 3: 4, 4: 4, 5: 8 }; NF = { 2: 2, 3: 2, 4: 3, 5: 4 }
def read( path ):
    """(dim, gmsh type, {tag: coordinates}, elements [tags], groups {id: [faces as vertex tags]})"""
    tok = open( path ).read().split()
    if not tok or tok[0] != 'SIMMSH': return None
    d, g, nv, ne, ng = ( int( x ) for x in tok[1:6] ); p = 6; vs = {}
    for _ in range( nv ): vs[ int( tok[p] ) ] = tuple( float( x ) for x in tok[p+1:p+4] ); p += 4
    k = NV[g]; els = []
    for _ in range( ne ): els.append( [ int( x ) for x in tok[p:p+k] ] ); p += k
    f = NF[g]; grp = {}
    for _ in range( ng ):
        i, n = int( tok[p] ), int( tok[p+1] ); p += 2; fs = []
        for _ in range( n ): fs.append( tuple( int( x ) for x in tok[p:p+f] ) ); p += f
        grp[i] = fs
    return d, g, vs, els, grp
def part_file( d, parts, r, base='out', ext='.msh' ): return f'{d}/{base}_{r+1}{ext}'
def groups( d, parts ):
    """per rank: time group of every element, in the rank's element order; and the relative time steps"""
    o = []; rel = None
    for r in range( parts ):
        s = h5.read( f'{d}/out_{r+1}.h5' ); g = []
        for n in ( 'inner', 'send' ):
            if s.get( f'edge_v/n_time_group_elements_{n}' ) is None: continue
            for t, k in enumerate( s[f'edge_v/n_time_group_elements_{n}'] ): g += [ t ]*int( k )
        o.append( g ); rel = s['edge_v/relative_time_steps']
    return o, rel
def neighbours( el, els ):
    """face neighbours of elements given by vertex ids: per element, per local face the neighbour's index or None"""
    fa = {}; 
    for i, e in enumerate( els ):
        for j, f in enumerate( gen.FACES[el] ): fa.setdefault( tuple( sorted( e[v] for v in f ) ), [] ).append( ( i, j ) )
    nb = [ [ None ]*len( gen.FACES[el] ) for _ in els ]
    for l in fa.values():
        if len( l ) == 2: ( a, x ), ( b, y ) = l; nb[a][x] = b; nb[b][y] = a
    return nb
