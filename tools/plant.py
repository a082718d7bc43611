#!/usr/bin/env python3
""" plant.py BATCH.py [id ...]   development tool (no check uses it): make seeded/<id>/ from a list of bug definitions and confirm each in a scratch copy
BATCH.py defines BUGS = [dict( id, prop, edits=[(file, old, new)], needs, breaks, demo )] """
import sys, os, subprocess, json, shutil
V = '/verif'
PY = '/opt/venv/bin/python'
ns = {}
exec( open( sys.argv[1] ).read(), ns )
notest = '--notest' in sys.argv
want = [a for a in sys.argv[2:] if not a.startswith( '--' )]
stable = set( json.load( open( '/opt/vp/BASELINE.json' ) ).get( 'stable', [] ) ) if os.path.exists( '/opt/vp/BASELINE.json' ) else set()
base = subprocess.run( ['git','-C','/repo','rev-list','--max-parents=0','HEAD'], capture_output=True, text=True ).stdout.split()[0]
mine = subprocess.run( ['git','-C','/repo','log','--format=%H','--grep=^fix:'], capture_output=True, text=True ).stdout.split()
def sh( cmd, **kw ) : return subprocess.run( cmd, shell=True, capture_output=True, text=True, **kw )
for b in ns['BUGS'] :
    if want and b['id'] not in want : continue
    pl = '/tmp/pl_' + b['id']
    shutil.rmtree( pl, ignore_errors=True )
    sh( 'git -C /repo worktree prune; cp -a /repo %s' % pl )
    sh( 'git checkout -q -- . ; git clean -fdq', cwd=pl )
    ok = True
    for f, old, new in b['edits'] :
        p = os.path.join( pl, 'BayesicFitting/source', f )
        s = open( p ).read()
        if s.count( old ) != 1 : print( b['id'], 'count', s.count( old ), 'of', repr( old[:60] ) ); ok = False; break
        open( p, 'w' ).write( s.replace( old, new ) )
    if not ok : shutil.rmtree( pl ); continue
    diff = sh( 'git diff', cwd=pl ).stdout
    # blame of the removed lines
    org = True
    import re
    cur = None
    for l in diff.split( '\n' ) :
        if l.startswith( '--- a/' ) : fn = l[6:]
        elif l.startswith( '@@' ) : ln = int( re.match( r'@@ -(\d+)', l ).group( 1 ) )
        elif l.startswith( '-' ) :
            h = sh( 'git blame -l -L %d,%d HEAD -- %s' % ( ln, ln, fn ), cwd=pl ).stdout.split()[0].lstrip( '^' )
            if any( m.startswith( h[:39] ) for m in mine ) : org = False
            ln += 1
        elif l.startswith( ' ' ) : ln += 1
    d = os.path.join( V, 'seeded', b['id'] )
    os.makedirs( d, exist_ok=True )
    open( d + '/patch.diff', 'w' ).write( diff )
    open( d + '/demo.py', 'w' ).write( b['demo'].lstrip( '\n' ) )
    open( d + '/demo.sh', 'w' ).write( '#!/bin/bash\n# cwd is the repository, already built\nexport MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n' )
    os.chmod( d + '/demo.sh', 0o755 )
    json.dump( { 'property' : b['prop'], 'needs' : b['needs'], 'what_it_breaks' : b['breaks'] }, open( d + '/meta.json', 'w' ), indent=1 )
    r0 = sh( 'timeout 300 bash %s/demo.sh' % d, cwd='/repo' )
    r1 = sh( 'timeout 300 bash %s/demo.sh' % d, cwd=pl )
    msg = '%s %s orig=%s demo: clean %d bug %d' % ( b['id'], b['prop'], org, r0.returncode, r1.returncode )
    if r0.returncode : msg += ' CLEANERR ' + ( r0.stdout + r0.stderr )[-200:]
    if r1.returncode == 0 : msg += ' NOT DEMONSTRATED'
    elif 'AssertionError' not in r1.stderr : msg += ' (' + r1.stderr[-150:].replace( '\n', ' ' ) + ')'
    if not notest and r0.returncode == 0 and r1.returncode :
        t = sh( 'cd %s; T=BayesicFitting/test; MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/plugins:%s:%s/BayesicFitting/test timeout 800 %s -m pytest -q -p no:cacheprovider -p no:warnings -p seedrng '
                '-o python_files="Test*.py" -n 8 --dist worksteal --timeout=400 --tb=line --ignore=$T/TestModifiable.py --ignore=$T/TestNestedSampler.py --ignore=$T/TestNestedSolver.py --ignore=$T/TestPhantomSampler.py $T 2>&1 | tail -8' % ( pl, pl, pl, PY ) )
        fails = [l for l in t.stdout.split( '\n' ) if l.startswith( 'FAILED' ) and 'testJeffreysPrior' not in l]
        msg += ' tests: %s %s' % ( t.stdout.strip().split( '\n' )[-1], fails )
    c = sh( '/tmp/devrun.sh %s %s' % ( pl, b['prop'] ) )
    last = [l for l in c.stdout.split( '\n' ) if 'cases=' in l or 'VIOLATION' in l]
    msg += ' CHECK rc=%d %s' % ( c.returncode, ( last[-1] if last else c.stderr[-200:] )[:140] )
    print( msg, flush=True )
    shutil.rmtree( pl )
