#!/usr/bin/python3
# Runs the real EDGEpre entry point for one element type and degree, up to the point where the DG matrices are written;
# plots and the (unused) sub-cell projections are skipped. usage: pregen.py <repo> <type> <degree> <out dir>
import os, runpy, sys, logging
sys.dont_write_bytecode = True
repo, ty, deg, out = sys.argv[1:5]
src = repo + '/tools/edge_pre'
sys.path[:0] = [ '/opt/vp/py/sympy-1.4', src ]
os.environ['MPLBACKEND'] = 'Agg'
import warnings; warnings.simplefilter( 'ignore' )
class Done( Exception ): pass
import edge_pre.io.Matrices, edge_pre.sc.ops.Project
import edge_pre.dg.basis.Line, edge_pre.dg.basis.Quad, edge_pre.dg.basis.Tria
import edge_pre.sc.grid.Line, edge_pre.sc.grid.Quad, edge_pre.sc.grid.Tria
def done( *a, **k ): raise Done()
nop = lambda *a, **k: None
edge_pre.io.Matrices.sparsity = done
edge_pre.sc.ops.Project.scatter = nop
edge_pre.sc.ops.Project.gather = nop
for m in ( edge_pre.dg.basis.Line, edge_pre.dg.basis.Quad, edge_pre.dg.basis.Tria, edge_pre.sc.grid.Line, edge_pre.sc.grid.Quad, edge_pre.sc.grid.Tria ):
    if hasattr( m, 'plot' ): m.plot = nop
# the sub-face integrals (sub-cell limiter only) are skipped
import edge_pre.sc.grid.Hex, edge_pre.sc.grid.Tet
for m in ( edge_pre.sc.grid.Quad, edge_pre.sc.grid.Tria, edge_pre.sc.grid.Hex, edge_pre.sc.grid.Tet ):
    if hasattr( m, 'intSfDg' ): m.intSfDg = lambda *a, **k: ( [ [] for i in range( 8 ) ], [ [] for i in range( 8 ) ] )
os.makedirs( out, exist_ok=True )
# keep the basis functions for the oracles
import json, edge_pre.int.Matrices
_mass = edge_pre.int.Matrices.mass
def mass( i_ints, i_funs ):
    if len( i_funs ) and not os.path.exists( out + '/basis.json' ):
      with open( out + '/basis.json', 'w' ) as f: json.dump( [ str( b ).replace( '_unique', '' ) for b in i_funs ], f )
    return _mass( i_ints, i_funs )
edge_pre.int.Matrices.mass = mass
with open( out + '/conf.xml', 'w' ) as f:
    f.write( f'<edge_pre><degs><deg>{deg}</deg></degs><types><type>{ty}</type></types><out_dirs><dg>{out}/dg</dg><subcell>{out}/sc</subcell><plots>{out}/pl</plots></out_dirs></edge_pre>' )
sys.argv = [ 'edge_pre.py', '-x', out + '/conf.xml' ]
logging.disable( logging.CRITICAL )
try: runpy.run_path( src + '/edge_pre.py', run_name='__main__' )
except Done: pass
for n in ( 'mass', 'stiffT', 'stiffV', 'fluxL', 'fluxN', 'fluxT' ):
    p = f'{out}/dg/{ty}/{deg}/{ty}_{deg}_{n}.csv'
    sys.argv = [ 'cpp.py', '-i', p, '-s', 'dg', '-n', n, '-t', 'double', '-o', f'{out}/{n}.cpp' ]
    runpy.run_path( src + '/cpp.py', run_name='__main__' )
with open( out + '/pre.cpp', 'w' ) as f: f.write( ''.join( open( f'{out}/{n}.cpp' ).read() + '\n' for n in ( 'mass', 'stiffT', 'stiffV', 'fluxL', 'fluxN', 'fluxT' ) ) )
