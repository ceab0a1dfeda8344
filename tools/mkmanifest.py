#!/usr/bin/env python3
# writes MANIFEST.json: one entry per claimed property
import json, os, sys
V = os.path.dirname( os.path.dirname( os.path.abspath( __file__ ) ) )
CLAIMED = sys.argv[1].split( ',' ) if len( sys.argv ) > 1 else [ c['property'] for c in json.load( open( V + '/MANIFEST.json' ) )['checks'] ]
NOTE = {}
exec( open( V + '/tools/notes.py' ).read() )
NA = { 'C21': 'Sequential pure functions: no schedule, clock, message, crash point or I/O interaction for a simulator to control.' }
ids = [ json.loads( l )['id'] for l in open( V + '/properties.jsonl' ) ]
m = { 'version': 1, 'setup_cmd': 'true',
      'hooks': { 'guard': 'PP_SIM_HOOKS', 'enable': '-DPP_SIM_HOOKS in the compile flags of /verif/sim/build.py', 'source_commits': [ '9f321aa' ] },
      'checks': [ { 'property': i, 'quick_cmd': f'python3-vt sim/py/check.py {i} quick', 'thorough_cmd': f'python3-vt sim/py/check.py {i} thorough', 'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults', 'level': 'exploration', 'level_note': NOTE[i] } for i in ids if i in CLAIMED ],
      'not_applicable': [ { 'property': i, 'reason': NA.get( i, 'no check yet' ) } for i in ids if i not in CLAIMED ] }
json.dump( m, open( V + '/MANIFEST.json', 'w' ), indent=1 )
