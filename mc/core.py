"""
Common driver for the checks in /verif.

A check module (mc/props/<id>.py) defines
    LEVEL    : 'model_checking' or 'exploration'
    RULE     : one sentence on how cases are made
    ASSUME   : list of assumptions (strings)
    cases( tier )            -> list of JSON-able cases, in canonical order
    run_case( case, ctx )    -> runs the real code on one case; reports through ctx
    BUDGET   : optional { 'quick' : s, 'thorough' : s }, per-case time limit in s

The set of cases is finite and enumerated completely; no sampling.  Each
case is executed against the code in /repo (the package is imported from there)
and compared with a reference written in /verif.
"""
import sys, os, json, time, traceback, signal, hashlib, fnmatch, warnings, math
import multiprocessing as mp

VERIF = os.path.dirname( os.path.dirname( os.path.abspath( __file__ ) ) )
EVID = os.path.join( VERIF, 'evidence' )


class CaseTimeout( BaseException ) :
    pass

class StopCase( Exception ) :
    """ raised by ctx.stop: abandon rest of the case silently """
    pass


def digest( obj, nd=6 ) :
    """ short canonical digest of numbers / arrays / nested lists """
    import numpy
    def canon( o ) :
        if isinstance( o, numpy.ndarray ) :
            return canon( o.tolist() )
        if isinstance( o, ( list, tuple ) ) :
            return '[' + ','.join( canon( x ) for x in o ) + ']'
        if isinstance( o, dict ) :
            return '{' + ','.join( canon( k ) + ':' + canon( o[k] ) for k in sorted( o, key=str ) ) + '}'
        if isinstance( o, ( float, numpy.floating ) ) :
            return '%.*e' % ( nd, float( o ) ) if o != 0 else '0'
        return str( o )
    return hashlib.md5( canon( obj ).encode() ).hexdigest()[:16]


class Ctx( object ) :
    """ Collects what one case did. """
    MAXBAD = 6
    def __init__( self, key ) :
        self.key = key
        self.evals = 0
        self.ntrans = 0
        self.nstates = 0
        self.traces = 0
        self.seen = set()
        self.bads = []
        self.notes = {}
        self.sample = None

    def ev( self, n=1 ) :
        """ count n evaluations (oracle comparisons on the real code) """
        self.evals += n

    def trans( self, n=1 ) :
        self.ntrans += n

    def trace( self, n=1 ) :
        self.traces += n

    def outcome( self, obj ) :
        """ register distinct observed outcome (state) """
        self.seen.add( obj if isinstance( obj, str ) and len( obj ) == 16 else digest( obj ) )

    def bad( self, what, detail='' ) :
        """ report that the property does not hold; what is a stable short key """
        for b in self.bads :
            if b[0] == what : return
        if len( self.bads ) < 60 :
            self.bads += [( what, str( detail )[:1500] )]

    def note( self, name, n=1 ) :
        self.notes[name] = self.notes.get( name, 0 ) + n

    def near( self, what, got, exp, rtol=1e-9, atol=1e-12, detail='' ) :
        """ got must equal exp within tolerances (shape included) """
        import numpy
        self.evals += 1
        try :
            g = numpy.asarray( got, dtype=float )
            e = numpy.asarray( exp, dtype=float )
        except Exception as x :
            self.bad( what, 'not numeric: %r vs %r %s' % ( got, exp, detail ) )
            return False
        if g.shape != e.shape :
            self.bad( what, 'shape %s expected %s; got %s expected %s %s' % ( g.shape, e.shape,
                        short( g ), short( e ), detail ) )
            return False
        with numpy.errstate( all='ignore' ) :
            scale = numpy.max( numpy.abs( e[numpy.isfinite( e )] ) ) if numpy.any( numpy.isfinite( e ) ) else 0.0
            ok = ( g == e ) | ( numpy.isnan( g ) & numpy.isnan( e ) ) | ( numpy.abs( g - e ) <= atol + rtol * scale )
        if not numpy.all( ok ) :
            self.bad( what, 'got %s expected %s %s' % ( short( g ), short( e ), detail ) )
            return False
        return True

    def eq( self, what, got, exp, detail='' ) :
        self.evals += 1
        try :
            same = bool( got == exp )
        except Exception :
            same = False
        if not same :
            self.bad( what, 'got %r expected %r %s' % ( got, exp, detail ) )
        return same

    def true( self, what, cond, detail='' ) :
        self.evals += 1
        if not cond :
            self.bad( what, detail )
        return bool( cond )


def short( a ) :
    import numpy
    s = numpy.array2string( numpy.asarray( a ), precision=8, threshold=40, max_line_width=200 )
    return s if len( s ) < 500 else s[:500] + '...'


class limit( object ) :
    """ with limit( seconds ) : CaseTimeout when block does not end """
    def __init__( self, sec ) :
        self.sec = sec
    def __enter__( self ) :
        def handler( *a ) :
            raise CaseTimeout( 'no end after %s s' % self.sec )
        self.old = signal.signal( signal.SIGALRM, handler )
        signal.setitimer( signal.ITIMER_REAL, self.sec, 5.0 )
    def __exit__( self, *a ) :
        signal.setitimer( signal.ITIMER_REAL, 0 )
        signal.signal( signal.SIGALRM, self.old )
        return False


_mod = None
_tlim = 120
_quiet = True

def casekey( case ) :
    return case['key'] if isinstance( case, dict ) and 'key' in case else json.dumps( case, sort_keys=True )


class quietly( object ) :
    """ stdout of the code under test goes to /dev/null (it prints a lot) """
    def __enter__( self ) :
        self.so = sys.stdout
        sys.stdout = open( os.devnull, 'w' )
    def __exit__( self, *a ) :
        sys.stdout.close()
        sys.stdout = self.so
        return False


def one( case ) :
    """ run one case; never raises """
    import numpy
    ctx = Ctx( casekey( case ) )
    t0 = time.time()
    try :
        with warnings.catch_warnings() :
            warnings.simplefilter( 'ignore' )
            with numpy.errstate( all='ignore' ) :
                with quietly(), limit( _tlim ) :
                    _mod.run_case( case, ctx )
    except StopCase :
        pass
    except CaseTimeout as e :
        ctx.bad( 'timeout', '%s' % e )
    except Exception as e :
        tb = traceback.extract_tb( e.__traceback__ )
        inrepo = [f for f in tb if '/BayesicFitting/' in f.filename]
        where = inrepo[-1].name if inrepo else 'harness:' + tb[-1].name
        ctx.bad( 'exception:%s' % type( e ).__name__, 'in %s: %s\n%s' % ( where, e,
                    ''.join( traceback.format_exc()[-1200:] ) ) )
    return ( ctx.key, ctx.evals, ctx.ntrans, ctx.traces, ctx.seen, ctx.bads, ctx.notes,
             time.time() - t0, ctx.sample, case )


def loadKnown( prop ) :
    fn = os.path.join( VERIF, 'known_findings.json' )
    if not os.path.exists( fn ) : return []
    with open( fn ) as f :
        kf = json.load( f )
    return [k for k in kf['known'] if k['property'] == prop]


def isKnown( known, key, what ) :
    for k in known :
        for pk in k['keys'] :
            ck, cw = pk
            if ( ck == key or ( k.get( 'pattern' ) and fnmatch.fnmatchcase( key, ck ) ) ) and \
               ( cw == what or ( k.get( 'pattern' ) and fnmatch.fnmatchcase( what, cw ) ) ) :
                return k
    return None


def bound() :
    """ a worker has at most 3.5 GB: MemoryError instead of being ended by the system """
    import resource
    resource.setrlimit( resource.RLIMIT_AS, ( 3500 << 20, resource.getrlimit( resource.RLIMIT_AS )[1] ) )


def main( prop, mod, argv ) :
    global _mod, _tlim
    _mod = mod
    tier = os.environ.get( 'VERIF_TIER', 'quick' )
    if '--thorough' in argv : tier = 'thorough'
    if '--quick' in argv : tier = 'quick'
    if tier not in ( 'quick', 'thorough' ) : tier = 'quick'
    seed = int( os.environ.get( 'VERIF_SEED', '1' ) or 1 )
    t0 = time.time()
    _tlim = getattr( mod, 'BUDGET', {} ).get( tier, 240 )

    if '--replay' in argv :
        with open( argv[argv.index( '--replay' ) + 1] ) as f :
            rep = json.load( f )
        res = one( rep['case'] )
        for what, det in res[5] :
            print( 'REPRODUCED', res[0], what, '\n   ', det )
        if not res[5] : print( 'not reproduced' )
        return 1 if res[5] else 0

    cases = mod.cases( tier )
    if '--only' in argv :
        pat = argv[argv.index( '--only' ) + 1]
        cases = [c for c in cases if fnmatch.fnmatchcase( casekey( c ), pat )]
    keys = [casekey( c ) for c in cases]
    if len( set( keys ) ) != len( keys ) :
        dup = [k for k in set( keys ) if keys.count( k ) > 1]
        print( 'check error: duplicate case keys', dup[:5] )
        return 2

    nproc = int( os.environ.get( 'VERIF_PROC', '8' ) )
    results = []
    ntimeout = 0
    cut = False
    def take( r ) :                 # True when it has no use to go on
        nonlocal ntimeout
        results.append( r )
        ntimeout += sum( 1 for w, d in r[5] if w == 'timeout' )
        late = time.time() - t0 > ( 700 if tier == 'quick' else 1e9 ) and any( q[5] for q in results )
        return ntimeout >= 4 or late or ( 'VERIF_STOP' in os.environ and bool( r[5] ) )
    serial = getattr( mod, 'SERIAL', False ) or nproc <= 1 or len( cases ) < 4
    if serial :
        for c in cases :
            if take( one( c ) ) :
                cut = True
                break
    else :
        chunk = max( 1, min( 16, len( cases ) // ( nproc * 8 ) ) )
        with mp.get_context( 'fork' ).Pool( nproc, initializer=bound ) as pool :
            for r in pool.imap_unordered( one, cases, chunksize=chunk ) :
                if take( r ) :
                    cut = True
                    break
            pool.terminate()
    if cut : print( '    stopped after %d of %d cases' % ( len( results ), len( cases ) ) )
    order = { k : i for i, k in enumerate( keys ) }
    results.sort( key=lambda r : order[r[0]] )

    known = loadKnown( prop )
    hit = {}
    viol = []
    evals = ntrans = traces = 0
    seen = set()
    notes = {}
    slow = []
    samples = []
    for key, ev, nt, tr, sn, bads, nts, dt, smp, case in results :
        evals += ev
        ntrans += nt
        traces += tr
        seen |= sn
        slow += [( dt, key )]
        if smp is not None and len( samples ) < 5 :
            samples += [smp]
        for k in nts : notes[k] = notes.get( k, 0 ) + nts[k]
        for what, det in bads :
            kf = isKnown( known, key, what )
            if kf is not None :
                hit.setdefault( kf['id'], [] ).append( ( key, what ) )
            else :
                viol += [( key, what, det, case )]

    for k in known :
        if k['id'] in hit :
            print( 'KNOWN-FINDING: property=%s %s' % ( prop, k['what'] ) )
        else :
            print( 'note: listed finding %s was not observed in this run' % k['id'] )

    os.makedirs( EVID, exist_ok=True )
    for fn in os.listdir( EVID ) :
        if fn.startswith( 'replay-%s-' % prop ) :
            os.remove( os.path.join( EVID, fn ) )
    maxp = 400 if '--all' in argv else 8
    for i, ( key, what, det, case ) in enumerate( viol[:maxp] ) :
        fn = os.path.join( EVID, 'replay-%s-%d.json' % ( prop, i ) )
        with open( fn, 'w' ) as f :
            json.dump( { 'property' : prop, 'key' : key, 'what' : what, 'detail' : det, 'case' : case,
                         'how' : 'bash /verif/run.sh %s --replay %s' % ( prop, fn ) }, f, indent=1 )
        print( 'VIOLATION property=%s replay=%s' % ( prop, fn ) )
        print( '    case %s: %s: %s' % ( key, what, det if '--all' not in argv else det[-300:] ) )
    if len( viol ) > maxp :
        print( '    ... and %d more' % ( len( viol ) - maxp ) )

    if not samples :
        samples = [results[i][9] for i in sorted( set( [0, len( results ) // 2, len( results ) - 1] ) )] if results else []
    level = getattr( mod, 'LEVEL', 'exploration' )
    cov = { 'cases' : len( cases ), 'samples' : samples, 'rule' : getattr( mod, 'RULE', '' ),
            'exhaustive' : not cut }
    if level == 'model_checking' :
        cov.update( { 'states' : len( seen ), 'transitions' : ntrans, 'oracle_comparisons' : evals,
                      'traces_validated_against_impl' : traces } )
    else :
        cov.update( { 'evaluations' : evals, 'distinct_nontrivial' : len( seen ) } )
    for k in notes : cov[k] = notes[k]
    bnd = getattr( mod, 'BOUNDS', None )
    if bnd : cov['bounds'] = bnd[tier] if isinstance( bnd, dict ) and tier in bnd else bnd
    wall = time.time() - t0
    ev = { 'property' : prop, 'tier' : tier, 'seed' : seed, 'level' : level, 'coverage' : cov,
           'assumptions' : getattr( mod, 'ASSUME', [] ), 'wall_s' : round( wall, 2 ),
           'violations' : len( viol ) }
    if '--only' not in argv :
        with open( os.path.join( EVID, '%s.json' % prop ), 'w' ) as f :
            json.dump( ev, f, indent=1, default=str )
    slow.sort( reverse=True )
    print( '%s %s: cases=%d evaluations=%d transitions=%d distinct=%d violations=%d known=%d wall=%.1fs slowest=%.1fs (%s)' % (
            prop, tier, len( cases ), evals, ntrans, len( seen ), len( viol ), len( hit ), wall,
            slow[0][0] if slow else 0, slow[0][1] if slow else '' ) )
    if notes : print( '   ', notes )
    # vacuity guard: an exploration where nothing was compared is an error of the check
    if '--only' not in argv and ( evals == 0 or len( seen ) < 2 ) and not viol :
        print( 'check error: nothing explored' )
        return 2
    return 1 if viol else 0
