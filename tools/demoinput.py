#!/usr/bin/env python3-vt
# writes the input files (mesh, EDGE-V and EDGE configuration) of a case for a demonstration. usage: demoinput.py <case.json> <dir>
import json, os, sys
sys.path.insert( 0, os.path.join( os.path.dirname( os.path.dirname( os.path.abspath( __file__ ) ) ), 'sim/py' ) )
import gen, h5
def write( c, d ):
    os.makedirs( d, exist_ok=True )
    open( d + '/mesh.msh', 'w' ).write( gen.mesh( c['mesh'] )[0] ); open( d + '/ev.xml', 'w' ).write( gen.ev_xml( c ) )
    if c.get( 'edge' ): open( d + '/edge.xml', 'w' ).write( gen.edge_xml( c ) )
    for i, p in enumerate( c.get( 'ps', [] ) ): h5.point_sources( f'{d}/ps_{i}.h5', p )
    t = c['ev'].get( 'tsunami' )
    if t:
        for n, z in [ ( 'bath', t['bath'] ) ] + [ ( 'disp_%d' % i, z ) for i, z in enumerate( t['disp'] ) ]: h5.write( f'{d}/{n}.h5', [ ( 'x', 'd', t['x'] ), ( 'y', 'd', t['y'] ), ( 'z', 'f', [ v for r in z for v in r ] ) ] )
if __name__ == '__main__': write( json.load( open( sys.argv[1] ) ), sys.argv[2] )
