# Scenario generation: meshes, EDGE-V and EDGE configurations. Everything is a function of the scenario dictionary.
import math, os, random
GM = { 'tria3': 2, 'quad4r': 3, 'tet4': 4, 'hex8r': 5 }
DIM = { 'tria3': 2, 'quad4r': 2, 'tet4': 3, 'hex8r': 3 }

def axis( rng, n, l, grading ):
    # cell widths; grading: ratios drawn from the list
    w = list( grading[0] ) if isinstance( grading[0], list ) else [ rng.choice( grading ) for _ in range( n ) ]
    s = sum( w ); x = [ 0.0 ]
    for v in w: x.append( x[-1] + v )
    return [ l*v/s for v in x ]

def mesh( m ):
    vs, els, grp, order, tags, eo = raw( m ); el = m['el']
    o = [ f'SIMMSH {DIM[el]} {GM[el]} {len(vs)} {len(els)} {len(grp)}' ]
    for v in order: o.append( '%d %.17g %.17g %.17g' % ( tags[v], *vs[v] ) )
    for e in eo: o.append( ' '.join( str( tags[v] ) for v in els[e] ) )
    for g, fs in sorted( grp.items() ):
        o.append( f'{g} {len(fs)}' ); o.append( ' '.join( str( tags[v] ) for f in fs for v in f ) )
    return '\n'.join( o ) + '\n', len( els )

def raw( m ):
    """m: el, n (cells per dim), len, grading (per dim: list of ratios to draw from, or [list of n widths]), jitter, bnd (per side physical group or None), seed"""
    rng = random.Random( m['seed'] ); el = m['el']; d = DIM[el]
    ax = [ axis( rng, m['n'][i], m['len'][i], m['grading'][i] ) for i in range( d ) ]
    n = m['n']; nv = [ k+1 for k in n ]
    def vid( *i ):
        r = 0
        for k in reversed( range( d ) ): r = r*nv[k] + i[k]
        return r
    vs = []
    idx = [ (i,j) for j in range( nv[1] ) for i in range( nv[0] ) ] if d == 2 else [ (i,j,k) for k in range( nv[2] ) for j in range( nv[1] ) for i in range( nv[0] ) ]
    for t in idx:
        p = [ ax[k][t[k]] for k in range( d ) ]
        if m.get( 'jitter' ) and el in ( 'tria3', 'tet4' ):
            for k in range( d ):
                if all( 0 < t[j] < n[j] for j in range( d ) ):
                    h = min( ax[k][t[k]]-ax[k][t[k]-1], ax[k][t[k]+1]-ax[k][t[k]] ); p[k] += h*m['jitter']*( 2*rng.random()-1 )
        off = m.get( 'origin', [0]*d )
        K = m.get( 'round' ); vs.append( [ round( ( p[k]+off[k] )*K )/K if K else p[k]+off[k] for k in range( d ) ] + ( [0.0] if d == 2 else [] ) )
    els = []
    if el == 'tria3':
        for j in range( n[1] ):
            for i in range( n[0] ):
                a, b, c, e = vid(i,j), vid(i+1,j), vid(i+1,j+1), vid(i,j+1)
                ts = [ (a,b,c), (a,c,e) ] if ( m.get( 'diag', 'rand' ) != 'rand' or rng.random() < 0.5 ) else [ (a,b,e), (b,c,e) ]
                for t in ts: r = rng.randrange( 3 ); els.append( t[r:]+t[:r] )
    elif el == 'quad4r':
        for j in range( n[1] ):
            for i in range( n[0] ): els.append( ( vid(i,j), vid(i+1,j), vid(i+1,j+1), vid(i,j+1) ) )
    elif el == 'hex8r':
        for k in range( n[2] ):
            for j in range( n[1] ):
                for i in range( n[0] ): els.append( ( vid(i,j,k), vid(i+1,j,k), vid(i+1,j+1,k), vid(i,j+1,k), vid(i,j,k+1), vid(i+1,j,k+1), vid(i+1,j+1,k+1), vid(i,j+1,k+1) ) )
    else:
        import itertools
        for k in range( n[2] ):
            for j in range( n[1] ):
                for i in range( n[0] ):
                    for p in itertools.permutations( range( 3 ) ):
                        c = [ i, j, k ]; t = [ vid( *c ) ]
                        for q in p: c[q] += 1; t.append( vid( *c ) )
                        a, b, c2, e = ( vs[v] for v in t )
                        u = [ [ x[q]-a[q] for q in range( 3 ) ] for x in ( b, c2, e ) ]
                        det = u[0][0]*(u[1][1]*u[2][2]-u[1][2]*u[2][1]) - u[0][1]*(u[1][0]*u[2][2]-u[1][2]*u[2][0]) + u[0][2]*(u[1][0]*u[2][1]-u[1][1]*u[2][0])
                        if det < 0: t[2], t[3] = t[3], t[2]
                        els.append( tuple( t ) )
    FA = { 'tria3': [(0,1),(1,2),(2,0)], 'quad4r': [(0,1),(1,2),(2,3),(3,0)], 'tet4': [(0,2,1),(0,1,3),(0,3,2),(3,1,2)], 'hex8r': [(0,3,2,1),(0,1,5,4),(0,4,7,3),(1,2,6,5),(2,3,7,6),(4,5,6,7)] }[el]
    cnt = {}
    for e in els:
        for f in FA:
            t = tuple( e[v] for v in f ); cnt.setdefault( tuple( sorted( t ) ), [] ).append( t )
    grp = {}
    for k, l in cnt.items():
        if len( l ) > 1: continue
        side = None
        for q in range( d ):
            if all( idx[v][q] == 0 for v in k ): side = 2*q
            if all( idx[v][q] == n[q] for v in k ): side = 2*q+1
        g = m['bnd'][side]
        if g is not None: grp.setdefault( g, [] ).append( l[0] )
    # numbering
    tags = list( range( 1, len( vs )+1 ) ); order = list( range( len( vs ) ) ); eo = list( range( len( els ) ) )
    if m.get( 'shuffle', True ): rng.shuffle( tags ); rng.shuffle( order ); rng.shuffle( eo )
    return vs, els, grp, order, tags, eo

FACES = { 'tria3': [(0,1),(1,2),(2,0)], 'quad4r': [(0,1),(1,2),(2,3),(3,0)], 'tet4': [(0,2,1),(0,1,3),(0,3,2),(3,1,2)], 'hex8r': [(0,3,2,1),(0,1,5,4),(0,4,7,3),(1,2,6,5),(2,3,7,6),(4,5,6,7)] }
def in_dia( el, c ):
    """insphere diameter"""
    import numpy as np
    c = np.asarray( c, float ); e = lambda i, j: np.linalg.norm( c[i]-c[j] )
    if el == 'quad4r': return min( e(0,1), e(1,2) )
    if el == 'hex8r': return min( e(0,1), e(1,2), e(0,4) )
    if el == 'tria3': return 2*np.linalg.norm( np.cross( c[1]-c[0], c[2]-c[0] ) )/( e(0,1)+e(1,2)+e(2,0) )
    a = sum( np.linalg.norm( np.cross( c[f[1]]-c[f[0]], c[f[2]]-c[f[0]] ) )/2 for f in FACES['tet4'] )
    return abs( np.linalg.det( c[1:]-c[0] ) )/a

def material( c, x ):
    """rho, lambda, mu (, qp, qs) at a point"""
    for hs, v in c['edge']['vel']:
        if all( sum( ( x[i]-o[i] )*n[i] for i in range( len( n ) ) ) > 0 for o, n in hs ): return v
    return c['edge']['vel'][-1][1]

def ev_xml( s, base='out' ):
    v = s['ev']
    x = '<edge_v><mesh><files><in>mesh.msh</in><out><base>%s</base><extension>.msh</extension></out></files>' % base
    x += '<n_partitions>%d</n_partitions>' % v['parts']
    if v.get( 'periodic' ): x += '<periodic>%d</periodic>' % v['periodic']
    if v.get( 'an' ): x += '<write_element_annotations>1</write_element_annotations>'
    if v.get( 'reorder' ): x += '<reorder_only>1</reorder_only>'
    x += '</mesh>'
    if v.get( 'ref' ): x += '<refinement><expression>%s</expression><out>ref.msh4</out></refinement>' % v['ref'].replace( '<', '&lt;' )
    x += '<velocity_model>'
    if v.get( 'expr' ): x += '<seismic_expression>%s</seismic_expression>' % v['expr'].replace( '<', '&lt;' )
    if v.get( 'tsunami' ): t = v['tsunami']; x += '<tsunami><dry_tolerance>%.17g</dry_tolerance><bathymetry>bath.h5</bathymetry>%s<expression>%s</expression></tsunami>' % ( t['dry'], ''.join( '<displacements>disp_%d.h5</displacements>' % i for i in range( len( t['disp'] ) ) ), t.get( 'expr', 'min_speed:=1;max_speed:=1;' ) )
    x += '</velocity_model><time><n_groups>%d</n_groups>' % v['groups']
    if v.get( 'fun_dt' ) is not None: x += '<fundamental_time_step>%.17g</fundamental_time_step>' % v['fun_dt']
    if v.get( 'cen' ): x += '<centroid_based_cfl>1</centroid_based_cfl>'
    if v.get( 'ts_out' ): x += '<files><out><time_steps>%s</time_steps></out></files>' % v['ts_out']
    return x + '</time></edge_v>\n'

def edge_xml( s, base='out', var=None, prep='.' ):
    c = dict( s['edge'], **( var or {} ) ); d = DIM[ s['mesh']['el'] ]
    x = '<edge>'
    if c.get( 'sep' ) is not None: x += '<parallelization><separate_workers>%d</separate_workers></parallelization>' % c['sep']
    if c.get( 'sync' ): x += '<synchronization><max_int>%.17g</max_int></synchronization>' % c['sync']
    x += '<cfr><mesh><in><base>%s</base><extension>.msh</extension></in><boundary>' % base
    if s['ev'].get( 'periodic' ): x += '<periodic>%d</periodic>' % s['ev']['periodic']
    x += '</boundary>'
    if c.get( 'sp_els' ):
        x += '<sparse_types><elements>'
        for hs, ty in c['sp_els']: x += dom( hs, d ) .replace( '</domain>', '<type>%d</type></domain>' % ty )
        x += '</elements></sparse_types>'
    x += '</mesh>'
    if c.get( 'vel' ) and not s.get( 'vm' ):
        x += '<velocity_model>'
        for hs, vals in c['vel']:
            t = ''.join( '<%s>%.17g</%s>' % ( k, v, k ) for k, v in zip( ( 'rho', 'lambda', 'mu', 'qp', 'qs' ), vals ) )
            x += dom( hs, d ).replace( '</domain>', t + '</domain>' )
        x += '</velocity_model>'
    x += '<setups><initial_values>' + ''.join( '<r%d>%s</r%d>' % ( i, e.replace( '<', '&lt;' ), i ) for i, e in enumerate( c.get( 'init', [] ) ) ) + '</initial_values>'
    if s.get( 'ps' ): x += '<point_sources>' + ''.join( '<file>%s/ps_%d.h5</file>' % ( prep, i ) for i in range( len( s['ps'] ) ) ) + '</point_sources>'
    if c.get( 'att' ): x += '<attenuation><central_frequency>%.17g</central_frequency><frequency_ratio>%.17g</frequency_ratio></attenuation>' % tuple( c['att'] )
    x += '<end_time>%.17g</end_time></setups><output>' % c['end']
    if c.get( 'wf' ):
        w = c['wf']; x += '<wave_field><type>%s</type>%s<file>%s</file><int>%.17g</int></wave_field>' % ( w['type'], ( '<sparse_type>%d</sparse_type>' % w['sp'] ) if w.get( 'sp' ) else '', w['file'], w['int'] )
    if c.get( 'recv' ):
        r = c['recv']; x += '<receivers><path_to_dir>%s</path_to_dir><freq>%.17g</freq>' % ( r['dir'], r['freq'] )
        for nm, p in r['pts']: x += '<receiver><name>%s</name><coords><x>%.17g</x><y>%.17g</y><z>%.17g</z></coords></receiver>' % ( nm, *( list( p ) + [0.0] )[:3] )
        x += '</receivers>'
    if c.get( 'err' ):
        e = c['err']; x += '<error_norms><type>%s</type><file>%s</file><reference_values>%s</reference_values></error_norms>' % ( e['type'], e['file'], ''.join( '<r%d>%s</r%d>' % ( i, t.replace( '<', '&lt;' ), i ) for i, t in enumerate( e['ref'] ) ) )
    return x + '</output></cfr></edge>\n'

def dom( hs, d ):
    x = '<domain>'
    for o, n in hs:
        x += '<half_space><origin>' + ''.join( '<%s>%.17g</%s>' % ( 'xyz'[i], o[i], 'xyz'[i] ) for i in range( d ) ) + '</origin><normal>' + ''.join( '<%s>%.17g</%s>' % ( 'xyz'[i], n[i], 'xyz'[i] ) for i in range( d ) ) + '</normal></half_space>'
    return x + '</domain>'
