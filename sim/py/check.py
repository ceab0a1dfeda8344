#!/usr/bin/env python3-vt
# usage: check.py <property> quick|thorough      searches; exit 0 (held), 1 (VIOLATION line), other: no answer
#        check.py --replay <file>                 replays a recorded violation; exit 1 if it is reproduced, 0 if not
import importlib, json, os, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname( os.path.abspath( __file__ ) ); V = os.path.dirname( os.path.dirname( HERE ) )
sys.path.insert( 0, HERE ); sys.path.insert( 0, os.path.dirname( HERE ) )
import build as builder
import engine, evidence
from registry import CHECKS

def known():
    o = []
    p = V + '/known_findings.json'
    if os.path.exists( p ): o = json.load( open( p ) )
    return o
def build( configs ):
    t = time.time()
    if not builder.build( configs ): print( 'BUILD FAILED', file=sys.stderr ); sys.exit( 3 )
    return time.time() - t

def search( prop, tier ):
    seed = int( os.environ.get( 'VERIF_SEED', '1' ) ); mod = CHECKS[prop]()
    tb = build( mod.configs[tier] )
    ctx = engine.Ctx( prop, tier ); code = 0
    try:
        scale = float( os.environ.get( 'SIM_SCALE', '1' ) )
        if scale != 1: mod.n = { k: max( 1, int( v*scale ) ) for k, v in mod.n.items() }
        fails, done = engine.search( ctx, mod, mod.tasks( seed, tier ), mod.limit[tier] )
        kn = [ k for k in known() if k['property'] == prop and k['status'] == 'known' ]
        hit = set(); viol = []
        for t, f in fails:
            m = [ k for k in kn if mod.is_known( k, t, f ) ] if hasattr( mod, 'is_known' ) else []
            if m: hit.add( m[0]['id'] )
            else: viol.append( ( t, f ) )
        for k in kn: print( f"KNOWN-FINDING: property={prop} {k['what']}" )
        ts = time.time() - ctx.t0; replay = None
        if viol:
            t, f = viol[0]
            print( f'failure: {f[0]}: {f[1]}' )
            t2, devs, f2, how = engine.minimise( ctx, mod, t, f, 40 if tier == 'quick' else 300 )
            os.makedirs( V + '/replays', exist_ok=True ); replay = f'{V}/replays/{prop}_{engine.key( t )}.json'
            json.dump( { 'property': prop, 'task': t2, 'devs': devs, 'failure': list( f2 ), 'minimised': how, 'seed': seed }, open( replay, 'w' ) )
            print( f'minimised: {how}; {f2[0]}: {f2[1]}' )
            print( f'VIOLATION property={prop} replay={replay}' ); code = 1
        evidence.write( V, prop, tier, seed, mod, ctx, done, ts, tb, viol, replay )
        st = ctx.st
        print( f'{prop} {tier}: {done} tasks, {st["runs"]} simulations, {len(st["sched"])} distinct schedules, {st["ticks"]*1e-8:.1f} s simulated, build {tb:.0f} s, search {ts:.0f} s' )
    finally: ctx.close()
    return code

def replay( path ):
    r = json.load( open( path ) ); mod = CHECKS[ r['property'] ]()
    progs = { r['task']['case']['prog'] } if 'case' in r['task'] else set( mod.configs['thorough'] )
    for k in r['task'].get( 'progs', [] ): progs.add( k )
    build( sorted( p for p in progs if p ) )
    ctx = engine.Ctx( r['property'], 'replay' )
    try:
        f = engine.evaluate( ctx, mod, r['task'], r['devs'] )
        if f is None: print( 'not reproduced' ); return 0
        print( f'reproduced: {f[0]}: {f[1]}' )
        print( 'same failure' if list( f ) == r['failure'] else 'different failure: recorded ' + ': '.join( r['failure'] ) )
        print( f"VIOLATION property={r['property']} replay={path}" ); return 1
    finally: ctx.close()

if __name__ == '__main__':
    sys.exit( replay( sys.argv[2] ) if sys.argv[1] == '--replay' else search( sys.argv[1], sys.argv[2] if len( sys.argv ) > 2 else os.environ.get( 'VERIF_TIER', 'quick' ) ) )
