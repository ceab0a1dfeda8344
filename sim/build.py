#!/usr/bin/env python3
# Builds the simulator and the simulated programs from /repo's working tree (ninja, header dependencies tracked).
import glob, os, shutil, subprocess, sys
V = os.path.dirname( os.path.dirname( os.path.abspath( __file__ ) ) )
R = os.environ.get( 'SIM_REPO', '/repo' )
B = os.environ.get( 'SIM_BUILD', os.path.join( V, 'build' ) )
S = os.path.join( V, 'sim' )
N_COPIES = 8 # simulated ranks per job at most

# name: (equations, element, order, precision, fused runs)
CONFIGS = {
  'el_tria3_o3':   ( 'elastic', 'tria3', 3, 64, 1 ),
  'el_tria3_o2':   ( 'elastic', 'tria3', 2, 64, 1 ),
  'el_tet4_o2':    ( 'elastic', 'tet4', 2, 64, 1 ),
  'el_tet4_o3':    ( 'elastic', 'tet4', 3, 64, 1 ),
  'el_quad4r_o2':  ( 'elastic', 'quad4r', 2, 64, 1 ),
  'el_hex8r_o2':   ( 'elastic', 'hex8r', 2, 64, 1 ),
  'el_tria3_o2_c2':( 'elastic', 'tria3', 2, 64, 2 ),
  'el_tet4_o2_c4': ( 'elastic', 'tet4', 2, 64, 4 ),
  'el_tet4_o2_f32':( 'elastic', 'tet4', 2, 32, 1 ),
  've_tria3_o2':   ( 'viscoelastic3', 'tria3', 2, 64, 1 ),
  'ad_tria3_o3':   ( 'advection', 'tria3', 3, 64, 1 ),
  'ad_tet4_o2':    ( 'advection', 'tet4', 2, 64, 1 ),
  'ad_quad4r_o2':  ( 'advection', 'quad4r', 2, 64, 1 ),
  'swe_quad4r_c1': ( 'swe', 'quad4r', 1, 32, 1 ),
  'swe_tria3_c1':  ( 'swe', 'tria3', 1, 32, 1 ),
}
def defs( c ):
    eq, el, o, pr, cr = CONFIGS[c]
    d = [ f'-DPP_N_CRUNS={cr}', f'-DPP_ORDER={o}', f'-DPP_PRECISION={pr}', f'-DPP_T_ELEMENTS_{el.upper()}', '-DPP_T_KERNELS_VANILLA' ]
    if eq == 'elastic': d += [ '-DPP_T_EQUATIONS_SEISMIC', '-DPP_N_RELAXATION_MECHANISMS=0' ]
    elif eq.startswith( 'viscoelastic' ): d += [ '-DPP_T_EQUATIONS_SEISMIC', f'-DPP_N_RELAXATION_MECHANISMS={eq[12:]}' ]
    else: d += [ f'-DPP_T_EQUATIONS_{eq.upper()}' ]
    if eq != 'swe': d += [ '-DPP_USE_MPI' ]
    return d
def cpps( d ):
    return sorted( os.path.relpath( f, d ) for f in glob.glob( d + '/**/*.cpp', recursive=True ) if not f.endswith( 'test.cpp' ) and not f.endswith( 'tests.cpp' ) )

def generate( configs ):
    os.makedirs( B, exist_ok=True )
    link = os.path.join( B, 'inc' ); os.makedirs( link, exist_ok=True )
    l = os.path.join( link, 'edge_v' )
    if os.path.islink( l ) and os.readlink( l ) != R + '/tools/edge_v/src': os.unlink( l )
    if not os.path.islink( l ): os.symlink( R + '/tools/edge_v/src', l )
    inc = f'-I{S}/include -I{link} -I{R} -I{R}/src -I/opt/vp/deps/include -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial'
    incv = f'-I{S}/include -I{R}/tools/edge_v -I{R}/tools/edge_v/src -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial'
    base = '-std=c++11 -w -fopenmp -fPIC -O1 -fno-gnu-unique -U_FORTIFY_SOURCE -DPP_USE_OMP -DPP_USE_EASYLOGGING -DEIGEN_MAX_STATIC_ALIGN_BYTES=0 -DPP_EDGE_VERSION=\\"sim\\" -DPP_SIM_HOOKS'
    tsan = '-fsanitize=thread --param tsan-distinguish-volatile=1 --param tsan-instrument-func-entry-exit=0'
    o = [ 'ninja_required_version = 1.3', 'builddir = ' + B,
          'rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out',
          'rule link\n  command = g++ $flags -o $out $in $libs\n  description = LINK $out',
          'rule pre\n  command = rm -rf $dir && /usr/bin/python3 $script $repo $ty $deg $dir\n  description = PRE $out',
          'rule copy\n  command = cp $in $out\n  description = COPY $out' ]
    def cxx( src, obj, flags ): o.append( f'build {obj}: cxx {src}\n  flags = {flags}' ); return obj
    def lib( name, objs, n ):
        hdf = '/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so'
        o.append( f'build {name}_0.so: link {" ".join(objs)}\n  flags = -shared -Wl,-Bsymbolic\n  libs = -lpugixml -lmetis {hdf} -ldl' )
        for i in range( 1, n ): o.append( f'build {name}_{i}.so: copy {name}_0.so' )
        return [ f'{name}_{i}.so' for i in range( n ) ]
    tgt = []
    sim = [ cxx( f'{S}/{f}.cpp', f'sim/{f}.o', f'-std=c++17 -O2 -g -Wall -fPIC -U_FORTIFY_SOURCE' ) for f in ( 'core', 'net', 'io' ) ]
    o.append( f'build edgesim: link {" ".join(sim)}\n  flags = -rdynamic\n  libs = -ldl' ); tgt.append( 'edgesim' )
    o.append( f'build h5tool: link {S}/h5tool.c\n  flags = -x c -O1 -w -isystem /usr/include/hdf5/serial\n  libs = -x none /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so' ); tgt.append( 'h5tool' )
    # EDGE-V: library and main
    ev = []
    for f in cpps( R + '/tools/edge_v/src' ):
        if f in ( 'main.cpp', ) or 'Ucvm' in f: continue
        fl = f'{base} {tsan} -DPP_USE_METIS {incv}' + ( ' -DPUGIXML_SOURCE' if f == 'io/Config.cpp' else '' )
        ev.append( cxx( f'{R}/tools/edge_v/src/{f}', f'ev/{f[:-4]}.o', fl ) )
    gm = cxx( f'{S}/gmsh_stub.cpp', 'ev/gmsh_stub.o', f'{base} -I{S}/include' )
    evm = cxx( f'{R}/tools/edge_v/src/main.cpp', 'ev/main.o', f'{base} {tsan} -DPP_USE_METIS {incv}' )
    tgt += lib( 'libedgev', ev + [ gm, evm ], 1 )
    sub = [ cxx( f'{R}/submodules/FastGL/fastgl.cpp', 'sub/fastgl.o', base ) ]
    pre, prsrc = {}, ' '.join( sorted( f for f in glob.glob( R + '/tools/edge_pre/**/*.py', recursive=True ) if not os.path.basename( f ).startswith( 'test' ) ) )
    for c in ( x for x in configs if x != 'edgev' ):
        ob = []
        k = ( CONFIGS[c][1], CONFIGS[c][2] - 1 )
        if k not in pre:
            d = f'{B}/pre/{k[0]}_{k[1]}'
            o.append( f'build {d}/pre.cpp: pre {S}/pregen.py {prsrc}\n  script = {S}/pregen.py\n  repo = {R}\n  ty = {k[0]}\n  deg = {k[1]}\n  dir = {d}' )
            pre[k] = cxx( f'{d}/pre.cpp', f'pre/{k[0]}_{k[1]}.o', base )
        ob.append( pre[k] )
        for f in cpps( R + '/src' ):
            if f == 'parallel/Gaspi.cpp' or ( CONFIGS[c][0] == 'swe' and f == 'parallel/MpiRemix.cpp' ): continue
            if f.startswith( 'impl/seismic/' ) and 'elastic' not in CONFIGS[c][0]: continue
            t = '' if f in ( 'dg/Basis.cpp', 'impl/seismic/setups/ViscoElasticity.cpp' ) else tsan
            d = ' '.join( defs( c ) )
            ob.append( cxx( f'{R}/src/{f}', f'{c}/{f[:-4]}.o', f'{base} {t} -DPP_HAS_HDF5 {d} {inc}' ) )
        ob.append( cxx( f'{R}/submodules/visit_writer/visit_writer.cpp', f'{c}/visit_writer.o', f'{base} {d} {inc}' ) )
        tgt += lib( f'lib_{c}', ob + ev + [ gm ] + sub, 1 if CONFIGS[c][0] == 'swe' else N_COPIES )
    o.append( 'build all: phony ' + ' '.join( tgt ) + '\ndefault all' )
    t = '\n'.join( o ) + '\n'
    p = os.path.join( B, 'build.ninja' )
    if not os.path.exists( p ) or open( p ).read() != t: open( p, 'w' ).write( t )

def build( configs, log=sys.stderr ):
    generate( sorted( configs ) )
    r = subprocess.run( [ 'ninja', '-C', B, '-k', '5' ], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True )
    if r.returncode != 0: log.write( r.stdout[-8000:] ); return False
    return True
if __name__ == '__main__':
    sys.exit( 0 if build( sys.argv[1:] or list( CONFIGS ) ) else 3 )
