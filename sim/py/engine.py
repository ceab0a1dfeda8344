# Search engine: prepares cases (mesh + EDGE-V), runs simulations, collects statistics, minimises and replays failures.
import concurrent.futures as cf, hashlib, json, os, random, shutil, sys, tempfile, threading, time
import gen, runner
V = runner.V
sys.path.insert( 0, os.path.join( V, 'sim' ) )

class Fail( Exception ):
    """a violated property: kind (stable class of the failure) and text"""
    def __init__( self, kind, text ): super().__init__( kind + ': ' + text ); self.kind = kind; self.text = text

class Run:
    def __init__( self, res, d ): self.res = res; self.dir = d
    @property
    def ok( self ): return self.res['status'] == 'ok'

BAD_REPORTS = None
def key( o ): return hashlib.sha1( json.dumps( o, sort_keys=True ).encode() ).hexdigest()[:16]

class Ctx:
    def __init__( self, prop, tier ):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.pool = runner.Pool(); self.lock = threading.RLock(); self.once = {}
        self.root = tempfile.mkdtemp( prefix='edgesim_' )
        self.st = { 'runs': 0, 'ev_runs': 0, 'ticks': 0, 'switches': 0, 'faults': {}, 'status': {}, 'sched': set(), 'prog': set(), 'states': set(), 'samples': [], 'progs': {}, 'reports': {} }
        self.n = 0
    def close( self ):
        self.pool.close(); shutil.rmtree( self.root, ignore_errors=True )
    def newdir( self, pre='r' ):
        with self.lock: self.n += 1; d = os.path.join( self.root, f'{pre}{self.n}' )
        os.makedirs( d ); return d
    def cached( self, k, fn ):
        with self.lock:
            e = self.once.get( k )
            if e is None: e = self.once[k] = [ threading.Lock(), None, None ]
        with e[0]:
            if e[1] is None:
                try: e[1] = ( fn(), )
                except Fail as x: e[1] = ( None, ); e[2] = x
        if e[2] is not None: raise Fail( e[2].kind, e[2].text )
        return e[1][0]
    # ------------------------------------------------------------------ simulations
    def sim( self, prog, spec, sample=None ):
        r = self.pool.run( prog, spec )
        with self.lock:
            s = self.st
            s['runs'] += 1; s['progs'][prog] = s['progs'].get( prog, 0 ) + 1
            s['ticks'] += r.get( 'simticks', 0 ); s['switches'] += r.get( 'switches', 0 )
            s['status'][r['status']] = s['status'].get( r['status'], 0 ) + 1
            if 'sched' in r: s['sched'].add( r['sched'] ); s['prog'].add( r['prog'] )
            for h in r.get( 'sync', [] ): s['states'].add( h[4] )
            for k, v in r.get( 'counts', {} ).items(): s['faults'][k] = s['faults'].get( k, 0 ) + v
            for k in ( 'stalls', 'partitions' ):
                if spec.get( k ): s['faults'][k] = s['faults'].get( k, 0 ) + spec[k].count( ';' )
            if len( s['samples'] ) < 12 and ( s['runs'] % 7 == 1 ): s['samples'].append( { 'prog': prog, 'spec': { k: v for k, v in spec.items() if k not in ( 'dir', 'args' ) }, 'status': r['status'], 'switches': r.get( 'switches' ), 'sched': r.get( 'sched' ) } )
        if r['status'] == 'simerror' : raise RuntimeError( 'simulator error: ' + json.dumps( r )[:400] )
        return r
    def prep( self, case, var=None ):
        """mesh generation and the real EDGE-V (cached); returns the directory with EDGE's input"""
        k = 'prep' + key( [ case['mesh'], case['ev'], case.get( 'ps' ), var ] + ( [ case['edge']['vel'] ] if case.get( 'vm' ) else [] ) )
        def go():
            d = self.newdir( 'prep' )
            self.ev_files( d, case )
            r = self.ev_run( d, case, var )
            if r['status'] != 'ok': raise Fail( 'edgev', 'EDGE-V ended with ' + r['status'] + ': ' + r['msg'] )
            if case.get( 'vm' ): self.vel_files( d, case )
            return d
        return self.cached( k, go )
    def ev_files( self, d, case ):
        t, n = gen.mesh( case['mesh'] )
        open( d + '/mesh.msh', 'w' ).write( t ); open( d + '/ev.xml', 'w' ).write( gen.ev_xml( case ) )
        if case.get( 'ps' ):
            import h5
            for i, p in enumerate( case['ps'] ): h5.point_sources( f'{d}/ps_{i}.h5', p )
        t = case['ev'].get( 'tsunami' )
        if t:
            import h5
            for n, z in [ ( 'bath', t['bath'] ) ] + [ ( 'disp_%d' % i, z ) for i, z in enumerate( t['disp'] ) ]: h5.write( f'{d}/{n}.h5', [ ( 'x', 'd', t['x'] ), ( 'y', 'd', t['y'] ), ( 'z', 'f', [ v for r in z for v in r ] ) ] )
    def vel_files( self, d, case ):
        """adds seismic velocities of the elements to the supplements, as EDGE-V does for UCVM models"""
        import h5, math, mesh
        for r in range( case['ev']['parts'] ):
            _, _, vs, els = mesh.read( mesh.part_file( d, case['ev']['parts'], r ) )[:4]; o = { 'vp': [], 'vs': [], 'rho': [] }
            for e in els:
                x = [ sum( vs[v][i] for v in e )/len( e ) for i in range( gen.DIM[case['mesh']['el']] ) ]
                rho, lam, mu = gen.material( case, x )[:3]; o['vp'].append( math.sqrt( ( lam+2*mu )/rho ) ); o['vs'].append( math.sqrt( mu/rho ) ); o['rho'].append( rho )
            h5.write( f'{d}/out_{r+1}.h5', [ ( '/edge_v/' + k, 'f', v ) for k, v in o.items() ], 'append' )
    def ev_run( self, d, case, var=None, devs=None, devs_out=None ):
        spec = { 'dir': d, 'args': '-x ev.xml', 'threads': 2, 'max_ticks': 2000000000 }; spec.update( { k: v for k, v in ( var or {} ).items() if k not in ( 'cfg', 'tag' ) } )
        if devs is not None:
            f = d + '/devs.in'; open( f, 'w' ).write( ''.join( '%d %d %d\n' % tuple( x ) for x in devs ) ); spec['devs'] = f
        if devs_out: spec['devs_out'] = devs_out
        with self.lock: self.st['ev_runs'] += 1
        return self.sim( 'edgev', spec )
    def edge( self, case, var, devs=None, devs_out=None, d=None, prep=None ):
        """one simulated EDGE job; var: simulator settings"""
        p = prep or self.prep( case )
        if d is None: d = self.newdir( 'run' )
        open( d + '/edge.xml', 'w' ).write( gen.edge_xml( case, base=p + '/out', var=var.get( 'cfg' ), prep=p ) )
        spec = { 'dir': d, 'args': '-x edge.xml', 'ranks': case['ev']['parts'], 'threads': 2, 'max_ticks': 20000000000, 'wall_ms': 240000 }
        spec.update( { k: v for k, v in var.items() if k not in ( 'cfg', 'tag' ) } )
        if devs is not None:
            f = d + '/devs.in'; open( f, 'w' ).write( ''.join( '%d %d %d\n' % tuple( x ) for x in devs ) ); spec['devs'] = f
        if devs_out: spec['devs_out'] = devs_out
        return Run( self.sim( case['prog'], spec ), d )
    def ref( self, case, var=None ):
        """undisturbed run with the default schedule (cached)"""
        v = dict( { 'threads': 2, 'snap': 'snap' }, **( var or {} ) )
        def go():
            r = self.edge( case, v ); must_ok( r, 'undisturbed run' ); return r
        return self.cached( 'ref' + key( [ case, v ] ), go )
    def drop( self, *runs ):
        for r in runs:
            if r is not None: shutil.rmtree( r.dir if isinstance( r, Run ) else r, ignore_errors=True )

def must_ok( r, what='run' ):
    res = r.res if isinstance( r, Run ) else r
    if res['status'] != 'ok': raise Fail( 'outcome-' + res['status'], f"{what} ended with {res['status']}: {res['msg']}" )
    if res.get( 'reports' ): k, m = res['reports'][0]; raise Fail( 'protocol-' + k, f'{what}: {m}' )

# ---------------------------------------------------------------------- schedules
def schedule( rng, ranks=1, faults=True, clk=False, io=False ):
    """a random schedule description; the interleaving itself is decided by the simulator's seeded scheduler"""
    v = { 'seed': rng.randrange( 1 << 40 ), 'threads': rng.choice( [ 1, 2, 2, 3, 3, 4, 5, 7 ] ) }
    st = rng.choice( [ 1, 1, 2, 2, 3, 3, 4, 5, 5 ] ); v['strat'] = st
    lo = rng.choice( [ 0, 0, 6, 12, 18 ] ); v['slice_lo'] = lo; v['slice_hi'] = lo + rng.choice( [ 6, 12, 18, 30 ] )
    # bounded number of deviations: the finer the slices, the shorter the window
    fr = rng.choice( [ 0, 0, rng.randrange( 3000 ), rng.randrange( 30000 ) ] )
    if fr: v['dev_from'] = fr
    v['dev_to'] = fr + ( 300000 if v['slice_hi'] <= 12 else 600000 if v['slice_hi'] <= 18 else 1500000 )
    if st == 2: v['p_dev'] = rng.choice( [ 0.003, 0.02, 0.1, 0.3 ] ); v['def_slice'] = rng.choice( [ 300, 3000, 30000 ] )
    if st == 3: v['victim_len'] = rng.choice( [ 50, 500, 5000, 30000 ] ); v['p_victim'] = rng.choice( [ 0.9, 1.0 ] )
    if st == 4: v['p_stick'] = rng.choice( [ 0.5, 0.9, 0.99 ] )
    if st == 5: v['prio_gap'] = rng.choice( [ 20, 200, 2000, 20000 ] )
    if faults and ranks > 1 and rng.random() < 0.8: v['msg_p'] = rng.choice( [ 0.05, 0.3, 1.0 ] ); v['msg_max'] = rng.choice( [ 6, 20, 35, 50 ] )
    if io and rng.random() < 0.6: v['io_p'] = rng.choice( [ 0.1, 0.5, 1.0 ] ); v['io_max'] = rng.choice( [ 14, 18, 22, 26 ] )
    if clk and rng.random() < 0.5: v['clk_p'] = rng.choice( [ 0.001, 0.02, 0.3 ] )
    if faults and rng.random() < 0.25:
        t0 = rng.randrange( 1, 20000000 ); v['stalls'] = '%d,%d,%d,%d;' % ( rng.randrange( ranks ), rng.choice( [ -1, 0, 0, 1 ] ), t0, t0 + rng.choice( [ 10000, 1000000, 20000000 ] ) )
    if faults and ranks > 1 and rng.random() < 0.25:
        a, b = rng.sample( range( ranks ), 2 ); t0 = rng.randrange( 1, 20000000 ); v['partitions'] = '%d,%d,%d,%d;' % ( a, b, t0, t0 + rng.choice( [ 10000, 1000000, 20000000 ] ) )
    if rng.random() < 0.5: v['perturb'] = rng.randrange( 1, 255 )
    if rng.random() < 0.5: v['cfg'] = { 'sep': rng.choice( [ 0, 1 ] ) }
    return v

# ---------------------------------------------------------------------- search
def evaluate( ctx, mod, task, devs=None, devs_out=None ):
    """returns None or (kind, text)"""
    try: mod.judge( ctx, task, devs, devs_out ); return None
    except Fail as f: return ( f.kind, f.text )

def minimise( ctx, mod, task, fail, budget_s ):
    """ddmin over the schedule's deviations from the default schedule; returns (task, devs or None, failure)"""
    t1 = time.time() + budget_s
    f = os.path.join( ctx.root, 'devs.out' )
    if os.path.exists( f ): os.unlink( f )
    a = evaluate( ctx, mod, task, None, f )
    if a is None or a[0] != fail[0]: return task, None, fail, 'not reproduced with the same seed'
    if not os.path.exists( f ): return task, None, a, 'no schedule recorded'
    devs = [ tuple( int( x ) for x in l.split() ) for l in open( f ) if l.strip() ]
    b = evaluate( ctx, mod, task, devs )
    if b is None or b[0] != fail[0]: return task, None, a, 'seed only'
    n0 = len( devs )
    # drop fault settings which are not needed
    for k in ( 'perturb', 'stalls', 'partitions' ):
        if k in task.get( 'var', {} ) and time.time() < t1:
            t2 = json.loads( json.dumps( task ) ); del t2['var'][k]; r = evaluate( ctx, mod, t2, devs )
            if r is not None and r[0] == fail[0]: task = t2
    if evaluate( ctx, mod, task, [] ) is not None and ( evaluate( ctx, mod, task, [] ) or ( None, ) )[0] == fail[0]: return task, [], b, f'{n0} -> 0 deviations'
    g = 2; ex = cf.ThreadPoolExecutor( runner.N_WRK )
    while len( devs ) > 1 and time.time() < t1:
        c = max( 1, len( devs ) // g ); parts = [ devs[i:i+c] for i in range( 0, len( devs ), c ) ]
        cand = parts + [ [ x for q in parts if q is not p for x in q ] for p in parts ] if g > 2 else parts
        hit = None
        for i in range( 0, len( cand ), runner.N_WRK ):
            if time.time() > t1: break
            rs = list( ex.map( lambda c: evaluate( ctx, mod, task, c ), cand[i:i+runner.N_WRK] ) )
            for c2, r in zip( cand[i:i+runner.N_WRK], rs ):
                if r is not None and r[0] == fail[0]: hit = c2; break
            if hit is not None: break
        if hit is not None: devs = hit; g = max( 2, g-1 ) if len( hit ) > len( parts[0] ) else 2
        elif c == 1: break
        else: g = min( len( devs ), g*2 )
    ex.shutdown()
    r = evaluate( ctx, mod, task, devs )
    return task, devs, r or fail, f'{n0} -> {len(devs)} deviations'

def search( ctx, mod, tasks, limit_s, stop_after=1 ):
    """evaluates tasks in parallel, in order; returns list of (task, failure) and the number of evaluated tasks"""
    fails = []; done = 0; t1 = ctx.t0 + limit_s
    it = iter( tasks )
    with cf.ThreadPoolExecutor( runner.N_WRK ) as ex:
        pend = {}
        def feed():
            while len( pend ) < runner.N_WRK + 2 and time.time() < t1 and len( fails ) < stop_after:
                t = next( it, None )
                if t is None: return
                pend[ ex.submit( evaluate, ctx, mod, t ) ] = t
        feed()
        while pend:
            d, _ = cf.wait( pend, return_when=cf.FIRST_COMPLETED )
            for f in d:
                t = pend.pop( f ); r = f.result(); done += 1
                if r is not None: fails.append( ( t, r ) )
            feed()
    return fails, done
