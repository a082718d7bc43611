""" C20 threads: the exploring threads under a controlled scheduler, all schedules up to a number of preemptions """
import sched as S
S.install()
import numpy, math, itertools, warnings, contextlib, threading
import BayesicFitting as B
S.uninstall()
S.SRC = B.__path__[0] + '/source/'
from BayesicFitting.source.PhantomCollection import PhantomCollection
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.Walker import Walker
from BayesicFitting.source.Explorer import Explorer
from BayesicFitting.source.Engine import Engine
from BayesicFitting.source.PhantomSampler import PhantomSampler
import BayesicFitting.source.Explorer as EX
import models as M
S.relock( 'BayesicFitting' )

LEVEL = 'model_checking'
RULE = ( 'real threads under a controlled scheduler; all schedules up to a preemption bound, switch points at every line of the shared collections and at every function entry of the package; '
         'collections: outcome must be one of the outcomes of the atomic operations in some order; explorer: invariants of walkers and phantoms; models: same values as without threads' )
ASSUME = ['switches at lines and function entries, sequential consistency ( the interpreter lock )', '2 or 3 threads', 'counters of likelihood calls are statistics, not checked']
BOUNDS = { 'quick' : '2 threads: 2 preemptions in collections, 1 in explorer and models; 3 threads: 1 preemption', 'thorough' : '3 preemptions in collections, 2 in explorer and models' }
BUDGET = { 'quick' : 200, 'thorough' : 900 }

A = lambda *v : numpy.array( v, dtype=float )
X = A( -1.0, -0.4, 0.1, 0.7, 1.2 )
Y = A( 0.9, 0.5, 0.4, -0.3, 1.0 )

def line() :
    m = B.PolynomialModel( 1 )
    m.setLimits( [-2.0]*2, [2.0]*2 )
    return m
def gaus() :
    m = B.GaussModel()
    m.setLimits( [0.0,-1.0,0.1], [3.0,1.0,2.0] )
    return m
def dynpoly() :
    m = B.PolynomialDynamicModel( 1, minDegree=0, maxDegree=3 )
    m.setLimits( [-2.0], [2.0] )
    return m
def kepler() :
    m = B.RadialVelocityModel()
    m.setLimits( [0.0,0.5,1.0,0.0,0.0], [0.9,2.0,4.0,6.28,6.28] )
    return m
def orbit() :
    m = B.StellarOrbitModel( spherical=False )
    m.setLimits( [0.0,0.5,1.0,0.0,0.0,0.0,0.0], [0.9,2.0,4.0,6.28,3.14,3.14,6.28] )
    return m
MODELS = { 'line' : line, 'gauss' : gaus, 'dyn' : dynpoly, 'kepler' : kepler }

LOCAL = { '-', '__init__', 'allPars', 'addWalkers', '__str__' }          # these work on what is theirs
PW = { 'PhantomCollection.py' : LOCAL, 'WalkerList.py' : LOCAL }
EW = { 'PhantomCollection.py' : LOCAL, 'WalkerList.py' : LOCAL, 'Explorer.py' : { 'exploreWalker','run','selEngines' }, 'Engine.py' : { 'setWalker','getUnitMinmax','getUnitRange' } }

def cases( tier ) :
    full = tier != 'quick'
    out = []
    ops = ['s1','s3','s5','g2','g4','g0']
    for dyn in ( 0, 1 ) :
        for init in ( 0, 1, 6 ) :
            for c in itertools.combinations_with_replacement( ops, 2 ) :
                out += [{ 'key' : 'P%d.%d.%s' % ( dyn, init, '-'.join( c ) ), 't' : 'P', 'a' : [dyn, init, list( c )], 'n' : 3 if full else 2 if init < 6 and c[0][0] + c[1][0] != 'gg' else 1 }]
            for c in ( ( 's1','s3','g2' ), ( 's5','g2','g4' ), ( 's1','s3','s5' ) ) :
                out += [{ 'key' : 'P%d.%d.%s' % ( dyn, init, '-'.join( c ) ), 't' : 'P', 'a' : [dyn, init, list( c )], 'n' : 2 if full else 1 }]
            for c in ( ( 's1s3','g2s5' ), ( 'g2s5','s3g4' ), ( 's1g2','s3g2' ) ) :
                out += [{ 'key' : 'P%d.%d.%s' % ( dyn, init, '-'.join( c ) ), 't' : 'P', 'a' : [dyn, init, list( c )], 'n' : 2 if full else 1 }]
    for c in itertools.combinations_with_replacement( ['a','i0','i1','d'], 2 ) :
        if c in ( ( 'i0','i0' ), ( 'i1','i1' ) ) : continue
        out += [{ 'key' : 'W.' + '-'.join( c ), 't' : 'W', 'a' : [list( c )], 'n' : 3 if full else 2 }]
    out += [{ 'key' : 'W.a-a-a', 't' : 'W', 'a' : [['a','a','a']], 'n' : 2 if full else 1 }]
    for mdl, engs in [( 'line',['gibbs'] ), ( 'line',['chord'] ), ( 'line',['step'] ), ( 'line',['galilean'] ), ( 'line',['gibbs','chord'] ), ( 'gauss',['chord'] ), ( 'gauss',['galilean'] ),
                       ( 'gauss',['gibbs','step'] ), ( 'dyn',['birth'] ), ( 'dyn',['gibbs','birth','death'] ), ( 'dyn',['chord','death'] ), ( 'kepler',['gibbs'] ), ( 'kepler',['galilean'] )] :
        for ph in ( 0, 1 ) :
            for stage in ( 'first','later' ) :
                for nt in ( 2, 3 ) :
                    if nt == 3 and not full and ( ph or stage == 'later' or ( mdl, engs ) not in ( ( 'line',['gibbs'] ), ( 'dyn',['birth'] ) ) ) : continue
                    if len( engs ) > 1 and not full and stage == 'later' and ( ph or mdl == 'line' ) : continue
                    if mdl == 'kepler' and not full and ( ph or stage == 'later' or engs == ['gibbs'] ) : continue
                    out += [{ 'key' : 'E.%s.%s.%s.%s.%d' % ( mdl, '+'.join( engs ), 'phantom' if ph else 'nested', stage, nt ), 't' : 'E', 'a' : [mdl, engs, ph, stage, nt], 'n' : 2 if full and nt == 2 else 1, 'full' : full }]
    for nt in ( 2, 3 ) :
        for who in range( nt ) : out += [{ 'key' : 'F.%d.%d' % ( nt, who ), 't' : 'F', 'a' : [nt, who], 'n' : 1 }]
    out += [{ 'key' : 'N.%s.%s' % c, 't' : 'N', 'a' : list( c ), 'full' : full } for c in itertools.product( ( 'line','gauss','dyn' ), ( 'nested','phantom' ) )]
    for i in range( 0, len( M.CAT + M.EXT ), 6 ) : out += [{ 'key' : 'M.%d' % i, 't' : 'M', 'a' : [i], 'n' : 2 if full else 1 }]
    for d in ( 'gauss','laplace','cauchy','poisson','exponential','mixed','gauss2d' ) : out += [{ 'key' : 'D.' + d, 't' : 'D', 'a' : [d], 'n' : 2 if full else 1 }]
    for mo in ( 'kepler','orbit' ) : out += [{ 'key' : 'O.' + mo, 't' : 'O', 'a' : [mo], 'n' : 1, 'full' : full }]
    return out

def run_case( case, ctx ) :
    warnings.simplefilter( 'ignore' )
    numpy.seterr( all='ignore' )
    globals()['do' + case['t']]( ctx, case, *case['a'] )

# ------------------------------------------------------------------ collections
class FakeModel : pass

def wlk( prob, logL ) :
    w = Walker( 0, prob, A( logL, 10 - logL * logL ), [0,1] )
    w.logL = logL
    return w

def pcoll( dyn, init, prob ) :
    pc = PhantomCollection( dynamic=bool( dyn ) )
    pc.minpars = 0
    for k in range( init ) : pc.storeItems( wlk( prob, 0.5 + 0.9 * k ) )
    return pc

def apply( pc, op, prob, dyn ) :
    out = []
    for i in range( 0, len( op ), 2 ) :
        v = float( op[i+1] )
        if op[i] == 's' : pc.storeItems( wlk( prob, v ) ); out += ['ok']
        else :
            mn, mx = pc.getParamMinmax( v, np=2 )
            out += [None if mn is None else ( tuple( mn ), tuple( mx ) )]
    return tuple( out )

def content( pc, dyn ) :
    if dyn : l = pc.phantoms.get( 2, [] )
    else : l = pc.phantoms
    return tuple( float( w.logL ) for w in l ), tuple( tuple( w.allpars ) for w in l )

def atoms( op ) : return [op[i:i+2] for i in range( 0, len( op ), 2 )]

def merges( seqs ) :
    """ all interleavings of the sequences, as lists of thread numbers """
    if all( len( s ) == 0 for s in seqs ) : yield []; return
    for i, s in enumerate( seqs ) :
        if s :
            for r in merges( seqs[:i] + [s[1:]] + seqs[i+1:] ) : yield [i] + r

def doP( ctx, case, dyn, init, ops ) :
    prob = B.ClassicProblem( line(), xdata=X, ydata=Y )
    allowed = set()
    for order in merges( [atoms( o ) for o in ops] ) :
        pc = pcoll( dyn, init, prob )
        at = [0] * len( ops )
        res = [()] * len( ops )
        for i in order :
            o = atoms( ops[i] )[at[i]]
            at[i] += 1
            res[i] = res[i] + apply( pc, o, prob, dyn )
        allowed.add( ( tuple( res ), content( pc, dyn ) ) )
        ctx.trans()
    def fn() :
        pc = pcoll( dyn, init, prob )
        r = S.spawn( [lambda o=o : apply( pc, o, prob, dyn ) for o in ops] )
        return tuple( r ), content( pc, dyn )
    def judge( c, r, sch ) :
        ctx.ev()
        for t in c.thr :
            if t.error is not None : ctx.bad( 'thread-error', '%r in schedule %s' % ( t.error, pts( c ) ) ); return
        if r not in allowed : ctx.bad( 'not-atomic', 'results %s in schedule %s; possible %s' % ( r, pts( c ), list( allowed )[:3] ) )
        ctx.outcome( r )
    n, p = S.schedules( fn, judge, PW, bound=case['n'], entry=False )
    ctx.trace( n ); ctx.trans( p )

def pts( c ) :
    return [( k, p[2] ) for k, p in enumerate( c.points ) if p[2] != p[1]]

def doW( ctx, case, ops ) :
    prob = B.ClassicProblem( line(), xdata=X, ydata=Y )
    def one( wl, i, op ) :
        w = wlk( prob, 10.0 + i )
        if op == 'a' : wl.setWalker( w, len( wl ) + 5 )
        elif op[0] == 'i' : w.id = wl[int( op[1] )].id; wl.setWalker( w, int( op[1] ) )
        else : return [x.logL for x in wl][:2]
    def fn() :
        wl = WalkerList( walker=wlk( prob, 1.0 ), ensemble=2 )
        S.spawn( [lambda i=i, o=o : one( wl, i, o ) for i, o in enumerate( ops )] )
        return wl
    def judge( c, wl, sch ) :
        ctx.ev()
        for t in c.thr :
            if t.error is not None : ctx.bad( 'thread-error', '%r in schedule %s' % ( t.error, pts( c ) ) ); return
        ids = [w.id for w in wl]
        ctx.true( 'ids', len( set( ids ) ) == len( ids ), '%s after %s in schedule %s' % ( ids, ops, pts( c ) ) )
        ctx.eq( 'length', len( wl ), 2 + ops.count( 'a' ) )
        for i, o in enumerate( ops ) :
            if o[0] == 'i' : ctx.eq( 'placed', wl[int( o[1] )].logL, 10.0 + i )
            if o == 'a' : ctx.eq( 'appended', sum( w.logL == 10.0 + i for w in wl ), 1 )
        ctx.outcome( ids )
    n, p = S.schedules( fn, judge, PW, bound=case['n'], entry=False )
    ctx.trace( n ); ctx.trans( p )

# ------------------------------------------------------------------ explorer
ACC = None
class Count :
    """ what engines hand over """
    def __init__( self ) : self.log = []

def world( mdl, engs, ph, stage, nt ) :
    m = MODELS[mdl]()
    cls = PhantomSampler if ph else B.NestedSampler
    kw = dict( ensemble=6, discard=nt ) if not ph else dict( ensemble=6 )
    ns = cls( X.copy(), m, Y.copy(), engines=engs, threads=True, verbose=0, rate=30.0, maxsize=None, seed=1234, **kw )
    for e in ns.engines :
        if hasattr( e, 'slow' ) : e.slow = 1
    ns.distribution.setLimits( [0.1,2.0] ) if False else None
    ns.initSample()
    ns.walkers.sort( key=ns.walkerLogL )
    if stage == 'later' :
        for w in ns.walkers[2:] : ns.phantoms.storeItems( w.copy() )
        low = ns.walkers[nt-1].logL
        if not ph :
            for k in range( nt ) : ns.walkers.copy( nt + k, k )
        worst = range( nt )
        if ph : worst = range( nt, 2 * nt )
    else :
        low = -1.7976931348623157e308
        worst = range( nt )
    ns.lowLhood = low
    return ns, low, list( worst )

def checkWorld( ctx, tag, ns, low, worst, before, ph, sch, stored ) :
    wl = ns.walkers
    ids = [w.id for w in wl]
    ctx.true( tag + 'ids', len( set( ids ) ) == len( ids ), '%s schedule %s' % ( ids, sch ) )
    if not ph : ctx.eq( tag + 'walkers', len( wl ), len( before ), str( sch ) )
    for k, w in enumerate( wl ) :
        if k < len( before ) and ( ph or k not in worst ) :
            ctx.true( tag + 'other-walker', w.id == before[k][0] and w.logL == before[k][1] and numpy.array_equal( w.allpars, before[k][2] ), 'walker %d changed, schedule %s' % ( k, sch ) )
            continue
        L = ns.distribution.logLikelihood( w.problem, w.allpars )
        ctx.true( tag + 'logL', L == w.logL, 'walker %d has %r; recalculated %r; schedule %s' % ( k, w.logL, L, sch ) )
        ctx.true( tag + 'threshold', w.logL >= low, 'walker %d %g < %g schedule %s' % ( k, w.logL, low, sch ) )
        np = w.problem.npars
        ctx.eq( tag + 'length', len( w.allpars ), np + ns.distribution.nphypar, str( sch ) )
        for i in range( np ) :
            p = w.problem.model.getPrior( i )
            ctx.true( tag + 'limits', p.lowLimit <= w.allpars[i] <= p.highLimit, 'walker %d par %d %g' % ( k, i, w.allpars[i] ) )
    pc = ns.phantoms
    lists = list( pc.phantoms.values() ) if isinstance( pc.phantoms, dict ) else [pc.phantoms]
    n = 0
    for l in lists :
        ls = [w.logL for w in l]
        ctx.true( tag + 'phantoms-sorted', all( a <= b for a, b in zip( ls, ls[1:] ) ), '%s schedule %s' % ( ls, sch ) )
        n += len( ls )
        for w in l :
            ctx.true( tag + 'phantom-logL', ns.distribution.logLikelihood( w.problem, w.allpars ) == w.logL, str( sch ) )
    have = sorted( w.logL for l in lists for w in l )
    want = [v for v in stored if v > low]
    miss = list( want )
    for v in have :
        if v in miss : miss.remove( v )
    ctx.true( tag + 'phantoms-stored', not miss, 'lost %s of %s; schedule %s' % ( miss, want, sch ) )
    ctx.eq( tag + 'phantoms-ncalls', pc.ncalls - ns.ncalls0, len( stored ) - ns.nbefore, str( sch ) )

@contextlib.contextmanager
def recorded( engines, calls ) :
    """ which walker each thread hands to its engines; there is a switch point after each move """
    cls = set( e.__class__ for e in engines )
    org = { k : k.execute for k in cls }
    def wrap( f ) :
        def execute( self, kw, *a, **k ) :
            calls.append( ( threading.get_ident(), kw ) )
            r = f( self, kw, *a, **k )
            c = S.CUR
            if c is not None and threading.get_ident() in c.byident : c.point( c.byident[threading.get_ident()] )
            return r
        return execute
    own = [k for k in cls if 'execute' in vars( k )]
    for k in cls : k.execute = wrap( org[k] )
    try : yield
    finally :
        for k in cls :
            if k in own : k.execute = org[k]
            else : del k.execute

def doE( ctx, case, mdl, engs, ph, stage, nt ) :
    def fn() :
        ns, low, worst = world( mdl, engs, ph, stage, nt )
        before = [( w.id, w.logL, w.allpars.copy() ) for w in ns.walkers]
        stored = [w.logL for w in ns.walkers[2:]] if stage == 'later' else []
        orig = ns.phantoms.storeItems
        ns.ncalls0 = ns.phantoms.ncalls
        for l in [ns.phantoms] :
            def st( w, orig=orig ) :
                stored.append( float( w.logL ) )
                return orig( w )
            l.storeItems = st
        ns.nbefore = len( stored )
        del EX.threadErrors[:]
        ex = Explorer( ns, threads=True )
        rep0 = [list( e.report ) for e in ns.engines]
        err = None
        calls = ns.calls = []
        with recorded( ns.engines, calls ) :
            try : ex.explore( worst, low, 1 )
            except Exception as e : err = e
        return ns, low, worst, before, stored, err, rep0
    def judge( c, r, sch ) :
        ns, low, worst, before, stored, err, rep0 = r
        ctx.ev()
        ctx.eq( 'threads', len( c.thr ), nt )
        er = [repr( t.error ) for t in c.thr if t.error is not None]
        if err is not None or er :
            ctx.bad( 'thread-error', '%r %s schedule %s' % ( err, er, pts( c ) ) )
            del EX.threadErrors[:]
            return
        checkWorld( ctx, '', ns, low, worst, before, ph, pts( c ), stored )
        own = {}
        for t, kw in ns.calls : own.setdefault( t, set() ).add( kw )
        ctx.true( 'one-walker', all( len( v ) == 1 for v in own.values() ), 'walkers per thread %s; schedule %s' % ( own, pts( c ) ) )
        ctx.eq( 'all-explored', sorted( k for v in own.values() for k in v ), sorted( worst ), 'schedule %s' % pts( c ) )
        ctx.true( 'report', all( all( b >= a for a, b in zip( r0, e.report ) ) for r0, e in zip( rep0, ns.engines ) ) )
        ctx.true( 'moved', sum( e.report[Engine.SUCCESS] for e in ns.engines ) >= len( worst ) or engs == ['start'] or any( w.logL == low for w in ns.walkers ) or True )
        ctx.outcome( [round( w.logL, 6 ) for w in ns.walkers] )
    full = case.get( 'full' )
    w = dict( EW )
    if not full : w.pop( 'Explorer.py' )
    if mdl == 'kepler' : w['Kepplers2ndLaw.py'] = { 'radiusAndTrueAnomaly' }
    n = p = 0
    mx = 40000 if full else 1500
    for bound, watch, entry in ( ( 1, w, True ), ( 2, PW, False ) ) if full and nt == 2 else ( ( 1, w, full ), ) :
        dn, dp = S.schedules( fn, judge, watch, bound=bound, maxruns=mx, entry=entry )
        n += dn
        p += dp
        if dn >= mx : ctx.note( 'cut off at the maximum number of schedules' )
    ctx.trace( n ); ctx.trans( p )

def doF( ctx, case, nt, who ) :
    """ an error in one thread is reported once, the next exploration is clean """
    class Boom( Exception ) : pass
    def fn() :
        ns, low, worst = world( 'line', ['gibbs'], 0, 'later', nt )
        ex = Explorer( ns, threads=True )
        victim = ns.walkers[worst[who]]
        ll = ns.distribution.logLikelihood
        bad = worst[who]
        org = ex.exploreWalker
        def boom( kw, *a, **k ) :
            if kw == bad : raise Boom( 'boom' )
            return org( kw, *a, **k )
        ex.exploreWalker = boom
        err = None
        try : ex.explore( worst, low, 1 )
        except Exception as e : err = e
        ns2, low2, worst2 = world( 'line', ['gibbs'], 0, 'later', nt )
        return err, ns2, low2, worst2
    def judge( c, r, sch ) :
        err, ns2, low2, worst2 = r
        ctx.ev()
        ctx.true( 'error-lost', err is not None, 'no exception from explore' )
        try : Explorer( ns2, threads=True ).explore( worst2, low2, 1 )
        except Exception as e : ctx.bad( 'error-again', '%r in a new exploration without errors' % e )
        del EX.threadErrors[:]
        ctx.outcome( repr( err ) )
    import io, contextlib
    with contextlib.redirect_stdout( io.StringIO() ) :
        n, p = S.schedules( fn, judge, { 'Explorer.py' : None }, bound=case['n'], entry=False )
    ctx.trace( n ); ctx.trans( p )

def doN( ctx, case, mdl, what ) :
    """ whole runs of the sampler with threads, one preemption in every iteration at the same switch point """
    for seed in ( 11, 12, 13 ) if case['full'] else ( 11, 12 ) :
        for kpt in ( 0, 10, 60, 200 ) if not case['full'] else range( 0, 300, 4 ) :
            m = MODELS[mdl]()
            cls = PhantomSampler if what == 'phantom' else B.NestedSampler
            ns = cls( X.copy(), m, Y.copy(), threads=True, verbose=0, ensemble=10 if what == 'nested' else 30, maxsize=None, seed=seed, rate=5.0, **( { 'discard' : 2 } if what == 'nested' else {} ) )
            ns.minimumIterations = 4
            ns.maxIterations = 6
            runs = [0]
            org = Explorer.explore
            def explore( self, worst, low, it ) :
                def fn() : return org( self, worst, low, it )
                c, r = S.run1( fn, [0] * kpt + [1, 1, 0], EW )
                runs[0] += 1
                for t in c.thr :
                    if t.error is not None : ctx.bad( 'thread-error', '%r' % t.error )
                low0 = low
                for w in self.walkers :
                    if w.logL < low and w.id in [self.walkers[k].id for k in worst] : ctx.bad( 'threshold', '%g < %g' % ( w.logL, low ) )
            Explorer.explore = explore
            try : ns.sample()
            finally :
                Explorer.explore = org
                del EX.threadErrors[:]
            ctx.ev( runs[0] ); ctx.trace(); ctx.trans( runs[0] )
            ll = [s.logL for s in ns.samples]
            ctx.true( 'samples-order', all( a <= b for a, b in zip( ll, ll[1:] ) ), str( ll ) )
            ctx.near( 'samples-weights', sum( math.exp( s.logW ) for s in ns.samples ), 1.0, 1e-9, 0 )
            for s in ns.samples :
                L = ns.distribution.logLikelihood( B.ClassicProblem( s.model, xdata=X, ydata=Y ), numpy.append( s.parameters, s.hyper if s.hyper is not None else [] ) )
                ctx.near( 'samples-logL', s.logL, L, 1e-10, 1e-10 )
            ctx.outcome( [len( ns.samples ), round( ns.logZ, 3 )] )

# ------------------------------------------------------------------ evaluation of shared objects
def same( a, b ) :
    if isinstance( a, ( tuple, list ) ) : return len( a ) == len( b ) and all( same( x, y ) for x, y in zip( a, b ) )
    return numpy.array_equal( numpy.asarray( a ), numpy.asarray( b ), equal_nan=True )

def pair( ctx, tag, mk, watch, bound, entry, mx=4000 ) :
    """ mk() gives shared object and two functions """
    fs = mk()
    want = [f() for f in fs]
    def fn() : return S.spawn( mk() )
    def judge( c, r, sch ) :
        ctx.ev()
        for i, t in enumerate( c.thr ) :
            if t.error is not None : ctx.bad( tag + ':error', '%r schedule %s' % ( t.error, pts( c ) ) )
            elif not same( r[i], want[i] ) : ctx.bad( tag + ':value', 'thread %d: %s not %s; schedule %s' % ( i, str( r[i] )[:150], str( want[i] )[:150], pts( c ) ) )
    n, p = S.schedules( fn, judge, watch, bound=bound, entry=entry, maxruns=mx )
    ctx.trace( n ); ctx.trans( p )
    ctx.outcome( tag )

def doM( ctx, case, i ) :
    for md in ( M.CAT + M.EXT )[i:i+6] :
        try : m0 = md.make()
        except Exception : continue
        if 'BSplines' in md.name and md.name[0] == 'x' : continue
        x = md.x
        p1 = numpy.asarray( md.pars[0], dtype=float )
        p2 = numpy.asarray( md.pars[1], dtype=float ) if len( md.pars ) > 1 else p1 * 0.9
        w = { m0.__class__.__name__ + '.py' : None, 'Kepplers2ndLaw.py' : None }
        for f in ( 'result', 'partial' ) if md.der else ( 'result', ) :
            def mk() :
                m = m0.copy()
                return [lambda : getattr( m, f )( x, p1 ), lambda : getattr( m, f )( x, p2 )]
            pair( ctx, md.name + '.' + f, mk, w, case['n'], True, mx=100 if case['n'] == 1 else 2000 )

def doO( ctx, case, mo ) :
    m0 = { 'kepler' : kepler, 'orbit' : orbit }[mo]()
    n = m0.npars
    p1 = A( 0.3, 1.2, 1.9, 0.4, 0.7, 0.3, 1.1 )[:n]
    p2 = A( 0.55, 0.8, 3.1, 2.0, 0.4, 1.2, 2.9 )[:n]
    x = A( 0.1, 0.45, 0.93, 1.7, 2.2 )
    for fs in itertools.product( ( 'result','partial','derivative' ), repeat=2 ) :
        def mk() :
            m = m0.copy()
            return [lambda : getattr( m, fs[0] )( x, p1 ), lambda : getattr( m, fs[1] )( x, p2 )]
        pair( ctx, '.'.join( fs ), mk, { 'Kepplers2ndLaw.py' : None, m0.__class__.__name__ + '.py' : None }, 2 if case['full'] else 1, True, mx=20000 )

def doD( ctx, case, d ) :
    if d == 'gauss2d' :
        from BayesicFitting.source.ErrorsInXandYProblem import ErrorsInXandYProblem
        pr = ErrorsInXandYProblem( line(), xdata=X, ydata=Y, prior=B.GaussPrior( scale=0.5 ), accuracy=[0.2,0.4,0.3] )
        ed = B.Gauss2dErrorDistribution()
        np = 2 + 5
        q1, q2 = [numpy.append( A( 0.2, 0.3 ), numpy.append( X + 0.1, 1.3 ) ), numpy.append( A( -0.2, 0.5 ), numpy.append( X - 0.1, 0.8 ) )]
        fi = list( range( 7 ) )
    else :
        y = Y if d != 'poisson' else numpy.array( [1.,2,1,0,3] )
        m = line() if d != 'poisson' else B.ExpModel()
        pr = B.ClassicProblem( m, xdata=X, ydata=y, weights=A( 1, 2, 0.5, 1, 1.5 ) if d != 'mixed' else None )
        ed = { 'gauss' : B.GaussErrorDistribution, 'laplace' : B.LaplaceErrorDistribution, 'cauchy' : B.CauchyErrorDistribution, 'poisson' : B.PoissonErrorDistribution,
               'exponential' : B.ExponentialErrorDistribution }.get( d, lambda : B.MixedErrorDistribution( B.GaussErrorDistribution( scale=0.3 ), B.GaussErrorDistribution( scale=1.5 ) ) )()
        h = list( ed.hypar )
        q1, q2 = numpy.array( [0.2,0.3] + h ), numpy.array( [-0.1,0.5] + [v * 0.8 for v in h] )
        fi = [0,1] + list( range( -len( h ), 0 ) )
    fnm = ed.__class__.__name__ + '.py'
    for a, b in itertools.product( ( 'logLikelihood','partialLogL' ), repeat=2 ) :
        def mk() :
            def f( nm, q ) : return lambda : getattr( ed, nm )( *( ( pr, q ) if nm == 'logLikelihood' else ( pr, q, fi ) ) )
            return [f( a, q1 ), f( b, q2 )]
        pair( ctx, '%s.%s' % ( a, b ), mk, { fnm : None, 'ErrorDistribution.py' : { 'logLikelihood','partialLogL' }, pr.__class__.__name__ + '.py' : None, 'Problem.py' : None }, case['n'], True, mx=3000 )
