# helpers of the demonstrations: builds EDGE/EDGE-V from the working directory, runs jobs in a scratch directory, reads output
import atexit, glob, math, os, re, shutil, signal, struct, subprocess, sys, tempfile
K = os.path.dirname( os.path.abspath( __file__ ) ); R = os.getcwd()
T = tempfile.mkdtemp( prefix='edgedemo_' ); atexit.register( lambda: shutil.rmtree( T, ignore_errors=True ) )
def fail( what ): print( 'FAIL: ' + what ); sys.exit( 1 )
def ok( what ): print( 'ok: ' + what ); sys.exit( 0 )
def build( what='both', eq='seismic', el='tria3', order=2, prec=64, cr=1, flags='' ):
    r = subprocess.run( [ 'bash', K + '/build.sh', T + '/b', what, eq, el, str( order ), str( prec ), str( cr ) ], env=dict( os.environ, DEMO_FLAGS=flags ), stdout=subprocess.PIPE, stderr=subprocess.STDOUT )
    if r.returncode: print( r.stdout.decode()[-3000:] ); fail( 'build' )
def run( cmd, cwd, env={}, limit=60, pre=None ):
    """runs a command in its own process group; returns (code or 'hang', output)"""
    p = subprocess.Popen( cmd, cwd=cwd, env=dict( os.environ, **env ), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=pre )
    try: o, _ = p.communicate( timeout=limit ); return p.returncode, o.decode( errors='replace' )
    except subprocess.TimeoutExpired:
        os.killpg( p.pid, signal.SIGKILL ); p.communicate(); return 'hang', ''
def edge_v( name, parts=None, threads=2, case='case', must=True, edit=None, pre=None ):
    """preprocesses the case's mesh in the scratch directory 'name' """
    d = T + '/' + name; shutil.copytree( K + '/' + case, d )
    x = open( d + '/ev.xml' ).read()
    if parts: x = re.sub( '<n_partitions>.*?</n_partitions>', f'<n_partitions>{parts}</n_partitions>', x )
    if edit: x = edit( x )
    open( d + '/ev.xml', 'w' ).write( x )
    c, o = run( [ T + '/b/edge_v_bin', '-x', 'ev.xml' ], d, { 'OMP_NUM_THREADS': str( threads ) }, pre=pre )
    if must and c: print( o[-3000:] ); fail( f'EDGE-V ({name}): {c}' )
    return d if must else ( d, c, o )
def edge( d, ranks=1, threads=2, must=True, edit=None, env={}, limit=60, pre=None, sub=None ):
    """runs EDGE on the preprocessed mesh; sub: runs in this sub-directory"""
    w = d
    if sub:
        w = d + '_' + sub; shutil.copytree( d, w )
    x = open( w + '/edge.xml' ).read()
    if edit: x = edit( x )
    open( w + '/edge.xml', 'w' ).write( x )
    c, o = run( [ 'bash', K + '/mpirun.sh', str( ranks ), T + '/b/edge_bin', '-x', 'edge.xml' ], w, dict( { 'OMP_NUM_THREADS': str( threads ), 'OMP_WAIT_POLICY': 'passive' }, **env ), limit, pre )
    if must and c: print( o[-3000:] ); fail( f'EDGE ended with {c}' )
    return w if must else ( w, c, o )
def recv( d, sub='recv' ):
    """receivers: name -> (number of files, rows)"""
    o = {}
    for f in sorted( glob.glob( f'{d}/{sub}/*/*.csv' ) ):
        n = os.path.basename( f )[:-4]; l = [ x for x in open( f ).read().split( '\n' ) if x and x[0] != '#' ][1:]
        try: v = [ [ float( y ) for y in x.split( ',' ) ] for x in l ]
        except ValueError: v = None
        o[n] = ( o.get( n, ( 0, ) )[0]+1, v )
    return o
def vtk( d, base, step ):
    """wave field of all ranks: sorted coordinates of the element's vertices -> values (list of hits)"""
    o = {}
    D, b = base.rsplit( '/', 1 )
    for f in sorted( glob.glob( f'{d}/{D}/*/{b}_*_{step}.vtk' ) ):
        B = open( f, 'rb' ).read(); p = 0
        def line():
            nonlocal p
            q = B.index( b'\n', p ); l = B[p:q].decode(); p = q+1; return l
        def words():
            while True:
                l = line()
                if l.strip(): return l.split()
        line(); line(); bin_ = line() == 'BINARY'; line()
        def nums( n, t ):
            nonlocal p
            if bin_: v = struct.unpack( '>%d%s' % ( n, t ), B[p:p+4*n] ); p += 4*n; return list( v )
            v = []
            while len( v ) < n: v += [ float( x ) if t == 'f' else int( x ) for x in words() ]
            return v
        n = int( words()[1] ); X = nums( 3*n, 'f' ); w = words(); m, s = int( w[1] ), int( w[2] ); C = nums( s, 'i' ); words(); nums( m, 'i' )
        w = words(); assert w[0] == 'CELL_DATA', w
        vs = []
        while p < len( B ):
            try: w = words()
            except ValueError: break
            if w[0] == 'SCALARS': words(); vs.append( nums( m, 'f' ) )
            elif w[0] == 'FIELD': continue
            elif len( w ) == 4: vs.append( nums( int( w[1] )*int( w[2] ), 'f' ) )
        q = 0
        for e in range( m ):
            k = C[q]; c = tuple( sorted( tuple( round( y, 4 ) for y in X[3*i:3*i+3] ) for i in C[q+1:q+1+k] ) ); q += k+1
            o.setdefault( c, [] ).append( [ v[e] for v in vs ] )
    return o
def diff( a, b, tol=1e-5 ):
    """compares two wave fields; returns None or a description"""
    if set( a ) != set( b ): return f'{len( set( a )^set( b ) )} elements are only in one of both'
    for k in a:
        if len( a[k] ) != 1 or len( b[k] ) != 1: return f'element {k} is written {len( a[k] )} and {len( b[k] )} times'
        for x, y in zip( a[k][0], b[k][0] ):
            if not abs( x-y ) <= tol*( 1+abs( x ) ): return f'element {k}: {a[k][0]} and {b[k][0]}'
    return None
def rdiff( a, b, tol=1e-5 ):
    if set( a ) != set( b ): return f'receivers {sorted( set( a )^set( b ) )} exist only in one of both'
    for n in a:
        if a[n][0] != 1 or b[n][0] != 1: return f'receiver {n} has {a[n][0]} and {b[n][0]} files'
        if a[n][1] is None or b[n][1] is None or len( a[n][1] ) != len( b[n][1] ): return f'receiver {n} has a different number of rows'
        for x, y in zip( a[n][1], b[n][1] ):
            if len( x ) != len( y ) or any( not abs( u-v ) <= tol*( 1+abs( u ) ) for u, v in zip( x, y ) ): return f'receiver {n}: {x} and {y}'
    return None
def h5( f ):
    """HDF5 file: name -> flat list"""
    if not os.path.exists( T + '/h5tool' ): subprocess.check_call( [ 'gcc', '-w', '-isystem', '/usr/include/hdf5/serial', K + '/h5tool.c', '-o', T + '/h5tool', '/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so' ] )
    l = subprocess.check_output( [ T + '/h5tool', 'dump', f ] ).decode().split( '\n' ); o = {}
    for i in range( 0, len( l )-1, 2 ):
        w = l[i].split(); o[w[0]] = [ float( x ) if w[1] == 'd' else int( x ) for x in l[i+1].split() ]
    return o
