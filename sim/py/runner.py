# Drives the simulator processes: a pool of fork servers per program, one JSON answer per run.
import json, os, queue, subprocess, threading
V = os.path.dirname( os.path.dirname( os.path.dirname( os.path.abspath( __file__ ) ) ) )
B = os.environ.get( 'SIM_BUILD', os.path.join( V, 'build' ) )
N_WRK = int( os.environ.get( 'SIM_WORKERS', os.cpu_count() or 4 ) )
N_COPIES = 8

class Server:
    def __init__( self, prog ):
        n = 1 if prog == 'edgev' or prog.startswith( 'swe' ) else N_COPIES
        base = 'libedgev' if prog == 'edgev' else 'lib_' + prog
        libs = [ os.path.join( B, f'{base}_{i}.so' ) for i in range( n ) ]
        env = { 'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C', 'HDF5_USE_FILE_LOCKING': 'FALSE' }
        self.p = subprocess.Popen( [ os.path.join( B, 'edgesim' ) ] + libs, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd='/' )
        l = self.p.stdout.readline()
        if l.strip() != 'READY': raise RuntimeError( 'simulator did not start: ' + l )
    def run( self, spec ):
        t = ''.join( f'{k}={v}\n' for k, v in spec.items() if v is not None ) + 'GO\n'
        self.p.stdin.write( t ); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l: raise RuntimeError( 'simulator process died' )
        return json.loads( l )
    def close( self ):
        try: self.p.stdin.write( 'QUIT\n' ); self.p.stdin.flush(); self.p.wait( 5 )
        except Exception: self.p.kill(); self.p.wait()

class Pool:
    def __init__( self ): self.idle = {}; self.lock = threading.Lock(); self.all = []
    def run( self, prog, spec ):
        with self.lock: q = self.idle.setdefault( prog, [] ); s = q.pop() if q else None
        if s is None:
            s = Server( prog )
            with self.lock: self.all.append( s )
        try: r = s.run( spec )
        except Exception:
            with self.lock: self.all.remove( s )
            s.p.kill(); raise
        with self.lock: self.idle[prog].append( s )
        return r
    def close( self ):
        for s in self.all: s.close()
        self.all = []; self.idle = {}
