""" C17 engines that move the parameters of a walker, all random draws controlled """
import numpy, math, itertools, warnings
import BayesicFitting as B
from BayesicFitting.source.Walker import Walker
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection
from choice import ChoiceRNG, explore

LEVEL = 'model_checking'
RULE = ( 'the real engine executed once or twice on a small ensemble in all executions in which up to maxdev of its random draws deviate; after each move: likelihood not below the threshold and equal to '
         'the recomputed one, parameters inside their priors, kept parameters and other walkers untouched, no move reported without one, phantoms complete and sorted; every fitted parameter is moved both ways' )
ASSUME = ['ensembles of 5 walkers at fixed places, thresholds at the lowest, a middle and no likelihood', 'default draws from a low-discrepancy sequence']
BOUNDS = { 'quick' : '1 deviation in the first 25 draws', 'thorough' : '2 deviations in the first 20 draws, 1 in the first 60' }
BUDGET = { 'quick' : 120, 'thorough' : 900 }

X = numpy.linspace( -1, 1, 7 )
Y = numpy.array( [0.1,0.3,1.0,1.3,1.1,0.2,-0.1] )
HALTON = numpy.array( [[0.5,1/3,0.2,1/7,0.4,0.9,0.3],[0.25,2/3,0.4,2/7,0.8,0.1,0.6],[0.75,1/9,0.6,3/7,0.2,0.5,0.9],[0.125,4/9,0.8,4/7,0.6,0.7,0.2],[0.625,7/9,0.04,5/7,0.1,0.3,0.5]] )

def line() :
    m = B.PolynomialModel( 1 )
    m.setLimits( [-2.0,-3.0], [2.0,1.0] )
    return m
def gaus() :
    m = B.GaussModel()
    m.setPrior( 0, B.ExponentialPrior( scale=2.0 ) )
    m.setPrior( 1, B.GaussPrior( center=0.1, scale=0.5 ) )
    m.setPrior( 2, B.JeffreysPrior( limits=[0.05,3.0] ) )
    return m
def circ() :
    m = B.PolynomialModel( 1 )
    m.setPrior( 0, B.CircularUniformPrior( limits=[-1.0,1.0] ) )
    m.setPrior( 1, B.LaplacePrior( center=0.0, scale=1.0, limits=[-1.5,4.0] ) )
    return m
def chain() :
    m = B.GaussModel()
    m.setLimits( [0.0,-1.0,0.1], [3.0,1.0,2.0] )
    n = B.PolynomialModel( 0 )
    n.setPrior( 0, B.CauchyPrior( center=0.0, scale=0.3 ) )
    m += n
    return m
def cp( mk ) : return B.ClassicProblem( mk(), xdata=X, ydata=Y )
def exy() :
    from BayesicFitting.source.ErrorsInXandYProblem import ErrorsInXandYProblem
    p = ErrorsInXandYProblem( line(), xdata=X[:3], ydata=Y[:3] )
    p.prior = B.GaussPrior( scale=0.2 )
    return p
def gs() : return B.GaussErrorDistribution( scale=0.4 )
def gl() : return B.GaussErrorDistribution( scale=0.4, limits=[0.1,5.0] )
def ex() :
    e = B.ExponentialErrorDistribution( scale=0.4, power=2.0 )
    e.setLimits( [0.1,5.0], 0 ) if False else e.setLimits( [[0.1,0.5],[5.0,5.0]] )
    return e
def la() : return B.LaplaceErrorDistribution( scale=0.5, limits=[0.1,5.0] )
CONF = {        # problem, error distribution, index of fitted parameters, kept values
 'line'  : ( lambda : cp( line ), gs, [0,1], {} ),
 'scale' : ( lambda : cp( line ), gl, [0,1,-1], {} ),
 'keep0' : ( lambda : cp( line ), gl, [1,-1], { 0 : 0.3 } ),
 'keep1' : ( lambda : cp( line ), gl, [0,-1], { 1 : -0.2 } ),
 'keeps' : ( lambda : cp( line ), gl, [0,1], { 2 : 0.7 } ),
 'keepx' : ( lambda : cp( line ), gs, [1], { 0 : 3.0 } ),              # kept outside its limits
 'gauss' : ( lambda : cp( gaus ), gs, [0,1,2], {} ),
 'circ'  : ( lambda : cp( circ ), la, [0,1,-1], {} ),
 'chain' : ( lambda : cp( chain ), gs, [0,1,2,3], {} ),
 'chaink': ( lambda : cp( chain ), gl, [0,2,3,-1], { 1 : 0.1 } ),
 'exy'   : ( exy, gs, [0,1,2,3,4], {} ),
 'expo'  : ( lambda : cp( line ), ex, [0,1,-2,-1], {} ),
 'expok' : ( lambda : cp( line ), ex, [0,1,-1], { 2 : 0.6 } ),
}
ENG = { 'galilean' : 'GalileanEngine', 'chord' : 'ChordEngine', 'gibbs' : 'GibbsEngine', 'step' : 'StepEngine', 'random' : 'RandomEngine' }
LOW = ( 'none','low','mid','high' )

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for e in ENG :
        for c in CONF :
            out += [{ 'key' : '%s.%s' % ( e, c ), 'c' : [e, c], 'full' : full }]
    for c in CONF : out += [{ 'key' : 'start.%s' % c, 'c' : ['start', c], 'full' : full }]
    return out

def prior( problem, errdis, k ) :
    if k >= 0 : 
        if k >= problem.model.npars : return problem.prior
        return problem.model.getPrior( k )
    return errdis.hyperpar[k].prior

def inside( problem, errdis, fi, p ) :
    for k in fi :
        v = p[k]
        if not math.isfinite( v ) : return '%d: %s' % ( k, v )
        pr = prior( problem, errdis, k )
        if k >= problem.model.npars : continue           # centred on the datum
        eps = 1e-9 * ( 1 + abs( v ) )
        if v < pr.lowLimit - eps or v > pr.highLimit + eps : return 'parameter %d = %.15g not in [%g,%g]' % ( k, v, pr.lowLimit, pr.highLimit )
    return ''

class World( object ) :
    def __init__( self, conf, rng, ctx ) :
        mk, ed, self.fi, self.keep = CONF[conf]
        self.problem = mk()
        self.errdis = ed()
        self.np = self.problem.npars
        nh = self.errdis.nphypar
        self.nall = self.np + nh
        self.fitIndex = numpy.array( self.fi )
        self.ctx = ctx
        base = numpy.zeros( self.nall )
        for k in range( nh ) : base[self.np+k] = self.errdis.hypar[k]
        for k in self.keep : base[k] = self.keep[k]
        self.base = base
        self.walkers = WalkerList()
        for k in range( 5 ) :
            p = base.copy()
            for j, i in enumerate( self.fi ) : p[i] = self.problem.unit2Domain( HALTON[k,j], i ) if i >= 0 else self.errdis.unit2Domain( HALTON[k,j], i )
            w = Walker( k, self.problem.copy(), p, self.fitIndex )
            w.logL = self.errdis.logLikelihood( self.problem, p )
            self.walkers.append( w )
            self.walkers._count += 1
        self.walkers.sort( key=lambda w : w.logL )
        self.phantoms = PhantomCollection( dynamic=False )
        for w in self.walkers : self.phantoms.storeItems( w )
        self.ref = conf
        self.real = self.errdis.logLikelihood
        self.seen = []
        object.__setattr__( self.errdis, 'logLikelihood', self.spy )
        self.grad = self.errdis.partialLogL
        object.__setattr__( self.errdis, 'partialLogL', self.spygrad )

    def engine( self, name, rng ) :
        e = getattr( B, ENG[name] )( self.walkers, self.errdis, phantoms=self.phantoms )
        e.rng = rng
        return e

    def fixedok( self, p ) :
        return all( p[k] == self.base[k] for k in range( self.nall ) if k not in self.fi and k - self.nall not in self.fi )

    def spy( self, problem, p ) :
        self.check( p, 'trial' )
        self.seen += [p.copy()]
        return self.real( problem, p )
    def spygrad( self, problem, p, fi ) :
        self.check( p, 'gradient' )
        return self.grad( problem, p, fi )
    def check( self, p, what ) :
        s = inside( self.problem, self.errdis, self.fi, p )
        if s : self.ctx.bad( what + ' outside the prior', s )
        if not self.fixedok( p ) : self.ctx.bad( what + ' changes a kept parameter', '%s, kept %s' % ( p, self.base ) )
        if len( p ) != self.nall : self.ctx.bad( what + ' length', '%d' % len( p ) )

def snap( walkers ) : return [( id( w ), w.id, w.logL, w.allpars.copy() ) for w in walkers]

def run_case( case, ctx ) :
    warnings.simplefilter( 'ignore' )
    numpy.seterr( all='ignore' )
    en, cn = case['c']
    if en == 'start' : return start( case, ctx, cn )
    stat = {}
    for ln, append, depth in itertools.product( LOW, ( False, True ), ( 1, 2 ) ) :
        def run( rng ) : execute( ctx, en, cn, ln, append, depth, rng, stat )
        if case['full'] :
            explore( run, maxdev=2 if depth == 1 else 1, maxpoint=20 if depth == 1 else 60, limit=20000 )
        elif depth == 1 or ln in ( 'low', ) : explore( run, maxdev=1, maxpoint=25 if depth == 1 else 12, limit=20000 )
    # every fitted parameter is tried on both sides ( of one of the starting places )
    for k in CONF[cn][2] :
        lo, hi = stat[k]
        ctx.true( 'parameter never moved both ways', lo < 0 < hi, 'parameter %d moved by %g to %g only' % ( k, lo, hi ) )

def execute( ctx, en, cn, ln, append, depth, rng, stat ) :
    w = World( cn, rng, ctx )
    eng = w.engine( en, rng )
    L = [v.logL for v in w.walkers]
    if ln == 'none' : low = -1e300
    else :
        n = { 'low' : 1, 'mid' : 3, 'high' : 4 }[ln]
        low = L[n-1]
        for k in range( n ) : w.walkers.copy( n, k, start=1 )              # as nested sampling does
    tag = ln + ( '.append:' if append else ':' )
    for d in range( depth ) :
        kw = d
        before = snap( w.walkers )
        start = w.walkers[kw].allpars.copy()
        sobj = w.walkers[kw]
        nph = len( w.phantoms.phantoms )
        calls, seen0 = list( eng.report ), len( w.seen )
        fib = w.walkers[kw].fitIndex.copy()
        mv = eng.execute( kw, low, append=append, iteration=d )
        ctx.ev(); ctx.trans()
        for p in w.seen[seen0:] :
            for k in w.fi :
                df = p[k] - start[k]
                a = stat.setdefault( k, [0.0, 0.0] )
                a[0], a[1] = min( a[0], df ), max( a[1], df )
        after = snap( w.walkers )
        nacc = eng.report[0] - calls[0]
        ctx.true( tag + 'calls', eng.report[4] == calls[4] + 1 )
        ctx.true( tag + 'negative moves', mv >= 0 )
        if append :
            ctx.true( tag + 'ensemble changed', all( a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and numpy.array_equal( a[3], b[3] ) for a, b in zip( before, after ) ), 'append may only add' )
            new = w.walkers[len( before ):]
            ctx.true( tag + 'number appended', len( new ) == nacc, '%d appended, %d successes' % ( len( new ), nacc ) )
            ctx.true( tag + 'moves', ( mv > 0 ) == ( len( new ) > 0 ), '%d moves, %d appended' % ( mv, len( new ) ) )
            ids = [v.id for v in w.walkers]
            ctx.true( tag + 'identity', len( set( ids ) ) == len( ids ), '%s' % ids )
        else :
            ctx.true( tag + 'others changed', len( before ) == len( after ) and all( a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and numpy.array_equal( a[3], b[3] ) for k, ( a, b ) in enumerate( zip( before, after ) ) if k != kw ), 'walker(s) other than %d' % kw )
            moved = not numpy.array_equal( before[kw][3], after[kw][3] )
            ctx.true( tag + 'moves', ( mv > 0 ) == ( nacc > 0 ) and ( nacc > 0 or not moved ), '%d moves, %d successes, moved %s' % ( mv, nacc, moved ) )
            ctx.true( tag + 'identity', w.walkers[kw].id == before[kw][1], '%d becomes %d' % ( before[kw][1], w.walkers[kw].id ) )
            new = [w.walkers[kw]] if mv > 0 else []
            ctx.true( tag + 'source changed', numpy.array_equal( sobj.allpars, start ), 'the walker that was there before changed in place' )
        for v in new :
            p = v.allpars
            ctx.true( tag + 'below threshold', v.logL >= low, '%g < %g' % ( v.logL, low ) )
            lr = w.real( w.problem, p )
            ctx.true( tag + 'logL', v.logL == lr, 'stored %.15g, computed %.15g' % ( v.logL, lr ) )
            s = inside( w.problem, w.errdis, w.fi, p )
            ctx.true( tag + 'outside the prior', not s, s )
            ctx.true( tag + 'kept parameters', w.fixedok( p ), '%s, %s' % ( p, w.base ) )
            ctx.true( tag + 'fitIndex', numpy.array_equal( v.fitIndex, fib ) )
            ctx.true( tag + 'number of parameters', len( p ) == w.nall )
        # phantoms: those of before above low, and the new ones
        ph = w.phantoms.phantoms
        LL = [v.logL for v in ph]
        ctx.true( tag + 'phantoms sorted', all( a <= b for a, b in zip( LL, LL[1:] ) ), '%s' % LL )
        for v in ph :
            if v.logL != w.real( w.problem, v.allpars ) :
                ctx.bad( tag + 'phantom logL', '%g' % v.logL )
        for v in new :
            ctx.true( tag + 'phantom missing', any( numpy.array_equal( v.allpars, q.allpars ) for q in ph ) )
        pm, px = w.phantoms.getParamMinmax( low )
        if nacc : ctx.true( tag + 'number of phantoms', len( ph ) >= nacc, '%d < %d' % ( len( ph ), nacc ) )
        ctx.outcome( ( en, int( mv ), nacc, numpy.round( w.walkers[-1].allpars, 2 ) ) )
        low = min( v.logL for v in w.walkers )
    ctx.trace()

def start( case, ctx, cn ) :
    """ the start engine fills each walker """
    def run( rng ) :
        w = World( cn, rng, ctx )
        eng = B.StartEngine( w.walkers, w.errdis, phantoms=w.phantoms )
        eng.rng = rng
        ids = [v.id for v in w.walkers]
        w.walkers.sort( key=lambda v : v.id )
        for v in list( w.walkers ) :
            oth = snap( w.walkers )
            n = eng.execute( v.id, -math.inf )
            ctx.ev(); ctx.trans()
            ctx.true( 'moves', n == len( w.fi ) )
            now = snap( w.walkers )
            ctx.true( 'others', len( now ) == 5 and all( a[0] == b[0] for k, ( a, b ) in enumerate( zip( oth, now ) ) if k != v.id ) )
            q = w.walkers[v.id]
            ctx.true( 'identity', q.id == v.id )
            ctx.true( 'logL', q.logL == w.real( w.problem, q.allpars ) )
            s = inside( w.problem, w.errdis, w.fi, q.allpars )
            ctx.true( 'outside the prior', not s, s )
            ctx.true( 'kept parameters', w.fixedok( q.allpars ), '%s, %s' % ( q.allpars, w.base ) )
            ctx.outcome( numpy.round( q.allpars, 3 ) )
        ctx.trace()
    explore( run, maxdev=2, maxpoint=10 if case['full'] else 5 )
