# Reading and writing of HDF5 files through build/h5tool.
import os, subprocess
import numpy as np
import runner
TOOL = os.path.join( runner.B, 'h5tool' )
def read( path ):
    r = subprocess.run( [ TOOL, 'dump', path ], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True )
    if r.returncode != 0: return None
    o = {}; l = r.stdout.split( '\n' )
    for i in range( 0, len( l )-1, 2 ):
        h = l[i].split(); dims = [ int( x ) for x in h[3:] ]
        v = l[i+1].split()
        o[h[0]] = np.array( [ float( x ) if h[1] == 'd' else int( x ) for x in v ], dtype=float if h[1] == 'd' else np.int64 ).reshape( dims )
    return o
def write( path, sets, mode='write' ):
    t = ''
    for n, ty, a in sets: a = np.asarray( a ); t += f'{n} {ty} {a.ndim} ' + ' '.join( str( x ) for x in a.shape ) + '\n' + ' '.join( repr( float( x ) ) for x in a.ravel() ) + '\n'
    subprocess.run( [ TOOL, mode, path ], input=t, text=True, check=True )
def point_sources( path, p ):
    """p: {'pts': [[x,y(,z)],..], 'scal': [[nq]..], 'par': [[onset, dt],..], 'series': [[samples],..]}"""
    ptr = [ 0 ]
    for s in p['series']: ptr.append( ptr[-1] + len( s ) )
    write( path, [ ( 'points', 'f', p['pts'] ), ( 'scalings', 'f', p['scal'] ), ( 'time_parameters', 'f', p['par'] ), ( 'time_pointers', 'i', ptr ), ( 'time_series', 'f', [ x for s in p['series'] for x in s ] ) ] )
