""" C19 nested sampling bookkeeping: the real sampler, all choices of engines and copies controlled, against an independent account """
import numpy, math, itertools, warnings, sys
import BayesicFitting as B
from BayesicFitting.source.Engine import Engine
from BayesicFitting.source.StartEngine import StartEngine
from BayesicFitting.source.PhantomSampler import PhantomSampler
from choice import ChoiceRNG, explore
from rprior import Ref

LEVEL = 'model_checking'
RULE = ( 'the real NestedSampler ( and PhantomSampler ) run with all random choices enumerated within a bound; every engine call is observed; an independent account of nested sampling '
         'derived from these observations gives the samples, weights, evidence, information, averages, thresholds and the moment to stop; compared with what the sampler reports' )
ASSUME = ['ensembles of 2 to 6 walkers, at most 7 iterations', 'default draws from a low-discrepancy sequence']
BOUNDS = { 'quick' : 'lattice engines: all choices up to 2 deviations in 16 points ( all choices for the smallest ); real engines: 1 deviation in 8 points', 'thorough' : 'lattice engines: 3 deviations in 24; real engines: 1 in 80, 2 in 8' }
BUDGET = { 'quick' : 150, 'thorough' : 900 }

A = lambda *v : numpy.array( v, dtype=float )
X = A( -1.0, -0.4, 0.1, 0.7, 1.2 )
Y = A( 0.9, 0.5, 0.4, -0.3, 1.0 )
W = A( 1.0, 0.5, 2.0, 0.0, 3.0 )
ACC = A( 0.3, 0.7, 1.1, 0.4, 0.5 )
HUGE = 1e300

def poly( n ) :
    def mk() :
        m = B.PolynomialModel( n )
        m.setLimits( [-2.0]*(n+1), [2.0]*(n+1) )
        return m
    return mk
def gaus() :
    m = B.GaussModel()
    m.setLimits( [0.0,-1.0,0.1], [3.0,1.0,2.0] )
    return m
def circ() :
    m = B.PolynomialModel( 1 )
    m.setPrior( 0, B.CircularUniformPrior( limits=[-1.0,1.0] ) )
    m.setPrior( 1, B.UniformPrior( limits=[-2.0,2.0] ) )
    return m
def expo() :
    m = B.ExpModel()
    m.setLimits( [0.1,-1.0], [3.0,1.0] )
    return m
def dynpoly() :
    m = B.PolynomialDynamicModel( 1, minDegree=0, maxDegree=3 )
    m.setLimits( [-2.0], [2.0] )
    return m
def splines( mx=6, knots=(-1.5,-0.2,0.6,1.5), lim=3.0 ) :
    m = B.SplinesDynamicModel( knots=list( knots ), order=1, minKnots=2, maxKnots=mx )
    m.setLimits( [-lim], [lim] )
    return m
def errxy() :
    from BayesicFitting.source.ErrorsInXandYProblem import ErrorsInXandYProblem
    return ErrorsInXandYProblem( poly( 1 )(), xdata=X[:3], ydata=Y[:3], prior=B.GaussPrior( scale=0.5 ) )
def evidence() :
    from BayesicFitting.source.EvidenceProblem import EvidenceProblem
    return EvidenceProblem( model=splines( 3, [-1.5,0.2,1.5], 100.0 ), xdata=X.copy(), ydata=Y.copy() )
def modist() : return B.ModelDistribution( scale=0.5 )
def multi() :
    m = B.StellarOrbitModel( spherical=True )
    return m
def rep() :
    m = B.RepeatingModel( 1, gaus(), minComp=1, maxComp=3 )
    return m

# name : model, data and constructor arguments, kept parameters ( or None ), levels of the lattice per parameter ( in the unit range )
def err( name ) : return lambda : name
def fitscale() :
    d = B.GaussErrorDistribution( scale=1.0 )
    d.setLimits( [0.2,5.0] )
    return d
def fitexp() :
    return B.ExponentialErrorDistribution( scale=1.0, power=2.0, limits=[[0.2,1.0],[5.0,4.0]] ) 
CONF = {
  'const'      : ( poly( 0 ), {}, None ),
  'const.fit'  : ( poly( 0 ), dict( limits=[0.2,5.0] ), None ),
  'const.keep' : ( poly( 1 ), {}, { 1 : 0.3 } ),
  'const.keep0': ( poly( 1 ), {}, { 0 : 0.3 } ),
  'fit.keephyp': ( poly( 1 ), dict( limits=[0.2,5.0] ), { 2 : 1.5 } ),
  'fit.keep'   : ( poly( 1 ), dict( limits=[0.2,5.0] ), { 0 : 0.2 } ),
  'wgt'        : ( poly( 1 ), dict( weights=W ), None ),
  'wgt.fit'    : ( poly( 1 ), dict( weights=W, limits=[0.2,5.0] ), None ),
  'acc'        : ( poly( 0 ), dict( accuracy=ACC ), None ),
  'laplace'    : ( poly( 0 ), dict( distribution='laplace', limits=[0.2,5.0] ), None ),
  'expon'      : ( poly( 0 ), dict( distribution='exponential' ), None ),
  'nonlin'     : ( gaus, {}, None ),
  'nonlin.fit' : ( gaus, dict( limits=[0.2,5.0] ), { 2 : 0.5 } ),
  'circ'       : ( circ, {}, None ),
  'poisson'    : ( expo, dict( distribution='poisson' ), None ),
  'own.scale'  : ( poly( 0 ), dict( distribution=fitscale ), None ),
}
POISS = A( 1.0, 2.0, 0.0, 3.0, 1.0 )

def fitlist( np, nh, fitted, keep ) :
    """ indices of the fitted parameters: model parameters from 0, hyperparameters from the end """
    fl = list( range( np ) ) + [k - nh for k in fitted]
    for k in ( keep or {} ) :
        kk = k if k < np else k - np - nh
        fl = [f for f in fl if f != kk]
    return fl

class Lattice( Engine ) :
    """ moves a walker to any place of a lattice that is allowed """
    def setup( self, rng, places ) :
        self.chooser, self.places, self.turn = rng, places, 0
    def execute( self, kw, lowLhood, append=False, iteration=0 ) :
        self.reportCall()
        w = self.walkers[kw]
        allowed = []
        for p in self.places( w ) :
            L = self.errdis.logLikelihood( w.problem, p )
            if L >= lowLhood : allowed += [( p, L )]
        if not allowed : return 100
        n = len( allowed )
        self.turn += 1
        k = ( self.chooser._choose( n ) + self.turn ) % n
        p, L = allowed[k]
        self.setWalker( kw, w.problem, p.copy(), L, fitIndex=w.fitIndex )
        return 100

class LatticeStart( Lattice ) :
    def execute( self, kw, lowLhood ) :
        return Lattice.execute( self, kw, lowLhood )

def snap( walkers ) :
    return [( w.logL + w.logPrior, w.allpars.copy() ) for w in walkers]

class Watch( object ) :
    """ log of everything that passes the boundary between sampler and engines """
    def __init__( self, ns ) :
        self.ns, self.log = ns, []
    def wrap( self, eng, start=False ) :
        real = eng.execute
        def execute( kw, low, **kws ) :
            before = snap( self.ns.walkers )
            mv = real( kw, low, **kws )
            self.log += [dict( start=start, kw=kw, low=low, it=self.ns.iteration, before=before, after=snap( self.ns.walkers ), nsamp=len( self.ns.samples ) )]
            return mv
        eng.execute = execute

def same( a, b ) : return a[0] == b[0] and numpy.array_equal( a[1], b[1] )
def contains( pool, item ) : return any( same( p, item ) for p in pool )
def without( pool, items ) :
    """ pool minus items, None if some item is not there """
    pool = list( pool )
    for i in items :
        for k, p in enumerate( pool ) :
            if same( p, i ) : del pool[k]; break
        else : return None
    return pool

class Account( object ) :
    """ independent nested sampling account """
    def __init__( self ) :
        self.rows = []                       # ( logL, allpars, logW )
        self.logX = 0.0
        self.kept = []
    def take( self, ws, n ) :
        """ take walkers ws ( ascending ) out of an ensemble of n """
        for i, ( L, p ) in enumerate( ws ) :
            m = n - i
            lw = self.logX + math.log( -math.expm1( -1.0 / m ) ) + L
            self.logX -= 1.0 / m
            self.rows += [( L, p, lw )]
            self.kept += [len( self.rows ) - 1]
    def weed( self, maxsize ) :
        if maxsize is None : return
        while len( self.kept ) > maxsize :
            if self.rows[self.kept[0]][2] < self.rows[self.kept[-1]][2] : del self.kept[0]
            else : del self.kept[-1]
    def logZ( self ) :
        return float( numpy.logaddexp.reduce( [r[2] for r in self.rows] ) )
    def info( self ) :
        lz = self.logZ()
        return math.fsum( math.exp( r[2] - lz ) * r[0] for r in self.rows ) - lz
    def logdZ( self ) : return self.rows[-1][2] - self.logZ()

def build( conf, rng, ctx, N, discard, real=None, cls=B.NestedSampler, **more ) :
    mk, kw, keep = CONF[conf] if conf in CONF else DYN[conf]
    kw = dict( kw )
    if callable( kw.get( 'distribution' ) ) : kw['distribution'] = kw['distribution']()
    y = POISS if kw.get( 'distribution' ) == 'poisson' else Y
    kw.update( more )
    if cls is B.NestedSampler : kw['discard'] = discard
    elif discard is not None : kw['step'] = discard
    if real is not None : kw['engines'] = list( real )
    if 'problem' in kw :
        kw['problem'] = kw['problem']()
        ns = cls( ensemble=N, verbose=0, **kw )
    else : ns = cls( X.copy(), mk(), y.copy(), ensemble=N, verbose=0, **kw )
    return ns, keep, kw

def run_case( case, ctx ) :
    warnings.simplefilter( 'ignore' )
    numpy.seterr( all='ignore' )
    f = { 'lattice' : lattice, 'real' : realrun, 'phantom' : phantom, 'boost' : boost, 'tolerance' : tolerance }[case['f']]
    f( case, ctx )

def fitted( ns, kw, ) :
    """ which hyperparameters are fitted according to what was asked """
    if isinstance( kw.get( 'distribution' ), B.ErrorDistribution ) : return [0]
    lim = kw.get( 'limits' )
    if lim is None : return []
    return list( range( numpy.size( lim[0] ) ) )

def lattice( case, ctx ) :
    conf, N, d = case['conf'], case['N'], case['d']
    def run( rng ) :
        ns, keep, kw = build( conf, rng, ctx, N, d, real=['chord'], maxsize=case.get( 'maxsize' ) )
        ns.rng = rng
        nh = ns.distribution.nphypar
        np = ns.model.npars
        fl = fitlist( np, nh, fitted( ns, kw ), keep )
        lev = [0.15,0.5,0.8] if len( fl ) == 1 else [0.3,0.7] if len( fl ) < 4 else [0.4]
        def places( w ) :
            for u in itertools.product( *[lev if i < 3 else [0.4] for i in range( len( w.fitIndex ) )] ) :
                p = w.allpars.copy()
                for k, f in enumerate( w.fitIndex ) :
                    p[f] = ns.problem.unit2Domain( u[k], f ) if f >= 0 else ns.distribution.unit2Domain( u[k], f )
                yield p
        e = Lattice( ns.walkers, ns.distribution, phantoms=ns.phantoms ); e.setup( rng, places )
        s = LatticeStart( ns.walkers, ns.distribution, phantoms=ns.phantoms ); s.setup( rng, places )
        ns.engines, ns.initialEngine = [e], s
        watch = Watch( ns )
        watch.wrap( e ); watch.wrap( s, True )
        ns.minimumIterations, ns.maxIterations, ns.end = case['stop']
        go( case, ctx, ns, watch, keep, fl, d )
        if case.get( 'twice' ) :
            watch.log = []
            go( case, ctx, ns, watch, keep, fl, d, tag='again ' )
    global SRC
    SRC = set()
    explore( run, maxdev=case['dev'], maxpoint=case['point'], maxexec=60000 )
    if not case.get( 'twice' ) :
        for n in set( s[0] for s in SRC ) :
            ctx.eq( 'survivors that are ever copied', sorted( s[1] for s in SRC if s[0] == n ), list( range( n ) ) )
    SRC = None

DYN = { 'dynpoly' : ( dynpoly, {}, None ), 'dynpoly.fit' : ( dynpoly, dict( limits=[0.2,5.0] ), None ), 'rep' : ( rep, {}, None ), 'splines' : ( splines, {}, None ), 'errxy' : ( None, dict( problem=errxy ), None ), 'errxy.fit' : ( None, dict( problem=errxy, limits=[0.2,5.0] ), None ),
        'evid' : ( None, dict( problem=evidence, distribution=modist ), None ) }

def realrun( case, ctx ) :
    conf, N, d = case['conf'], case['N'], case['d']
    def run( rng ) :
        ns, keep, kw = build( conf, rng, ctx, N, d, real=case['eng'], maxsize=case.get( 'maxsize' ) )
        np = ns.problem.npars
        nh = ns.distribution.nphypar
        fl = None if ns.model.isDynamic() else fitlist( np, nh, fitted( ns, kw ), keep )
        ns.initialEngine = StartEngine( ns.walkers, ns.distribution )
        watch = Watch( ns )
        ns.rng = rng
        for e in ns.engines : e.rng = rng; watch.wrap( e )
        ns.initialEngine.rng = rng; watch.wrap( ns.initialEngine, True )
        if case.get( 'copymode' ) : ns.copymode = 1
        ns.minimumIterations, ns.maxIterations, ns.end = case['stop']
        go( case, ctx, ns, watch, keep, fl, d )
    explore( run, maxdev=case['dev'], maxpoint=case['point'], limit=200000 )

def phantom( case, ctx ) :
    conf, N, d = case['conf'], case['N'], case['d']
    def run( rng ) :
        ns, keep, kw = build( conf, rng, ctx, N, d, real=case['eng'], cls=PhantomSampler )
        nh = ns.distribution.nphypar
        fl = fitlist( ns.model.npars, nh, fitted( ns, kw ), keep )
        ns.initialEngine = StartEngine( ns.walkers, ns.distribution )
        watch = Watch( ns )
        ns.rng = rng
        for e in ns.engines : e.rng = rng; watch.wrap( e )
        ns.initialEngine.rng = rng; watch.wrap( ns.initialEngine, True )
        ns.minimumIterations, ns.maxIterations, ns.end = case['stop']
        go( case, ctx, ns, watch, keep, fl, max( 1, N * d // 100 ), phantom=True )
    explore( run, maxdev=case['dev'], maxpoint=case['point'], limit=200000 )

def boost( case, ctx ) :
    """ bestBoost: a walker may be replaced by a better one, within its priors, kept parameters kept """
    conf, N = case['conf'], case['N']
    def run( rng ) :
        ns, keep, kw = build( conf, rng, ctx, N, 1, real=case['eng'], bestBoost=case['boost'] )
        fl = fitlist( ns.model.npars, ns.distribution.nphypar, fitted( ns, kw ), keep )
        ns.initialEngine = StartEngine( ns.walkers, ns.distribution )
        watch = Watch( ns )
        ns.rng = rng
        for e in ns.engines : e.rng = rng; watch.wrap( e )
        ns.initialEngine.rng = rng; watch.wrap( ns.initialEngine, True )
        ns.minimumIterations, ns.maxIterations, ns.end = case['stop']
        go( case, ctx, ns, watch, keep, fl, 1 )
    explore( run, maxdev=case['dev'], maxpoint=case['point'], limit=200000 )

def tolerance( case, ctx ) :
    """ the stop criterion on the last contribution to the evidence """
    lattice( case, ctx )

def dist( ns, walker, k ) :
    return walker.problem.model.getPrior( k ) if k >= 0 else ns.distribution.hyperpar[k].prior

def go( case, ctx, ns, watch, keep, fl, d, tag='', phantom=False ) :
    if case.get( 'tol' ) is not None : ns.tolerance = case['tol']
    N = case['N']
    ev = ns.sample( keep=keep )
    ctx.ev()
    log = watch.log
    starts = [e for e in log if e['start']]
    ctx.eq( tag + 'number of starting walkers', len( starts ), N )
    first = [e for e in log if not e['start'] and e['low'] < -HUGE]
    main = [e for e in log if not e['start'] and e['low'] >= -HUGE]
    if log.index( starts[-1] ) != N - 1 : ctx.bad( tag + 'starting walkers after the first move' )
    nonlin = not isinstance( ns.model, B.LinearModel ) 
    acc = Account()
    state = ( first[-1] if first else starts[-1] )['after']
    groups = []
    for e in main :
        if not groups or groups[-1][0]['it'] != e['it'] : groups += [[e]]
        else : groups[-1] += [e]
    nit = len( groups )
    size = len( state )
    if not phantom : ctx.eq( tag + 'ensemble at the start', size, N )
    for t, g in enumerate( groups ) :
        ctx.trans()
        e0 = g[0]
        order = sorted( state, key=lambda w : w[0] )
        rest = e0['before']
        if not phantom :
            out, stay = order[:d], order[d:]
            # thresholds
            for e in g : ctx.eq( tag + 'threshold', e['low'], out[-1][0], 'iteration %d' % t )
            ctx.eq( tag + 'size of the ensemble', len( rest ), N )
            # survivors stay; the others are replaced by copies of survivors or of phantoms above the threshold
            left = without( rest, stay )
            if left is None : ctx.bad( tag + 'survivors changed', 'iteration %d' % t )
            else :
                for w in left :
                    if case.get( 'copymode' ) : ctx.true( tag + 'copy of a phantom below the threshold', w[0] >= out[-1][0] )
                    else :
                        if SRC is not None and len( set( v[0] for v in stay ) ) == len( stay ) : SRC.add( ( len( stay ), [v[0] for v in stay].index( w[0] ) if contains( stay, w ) else -1 ) )
                        ctx.true( tag + 'replacement is not a copy of a survivor', contains( stay, w ), 'iteration %d' % t )
            # walkers moved: all those that were replaced, and no others
            moved = sorted( set( e['kw'] for e in g ) )
            bad = [k for k in range( N ) if k not in moved]
            for k in bad : ctx.true( tag + 'walker changed that was not moved', same( g[-1]['after'][k], rest[k] ) )
            ctx.eq( tag + 'walkers moved', len( moved ), d )
            if left is not None : ctx.true( tag + 'a replaced walker stays put', without( [rest[k] for k in moved], left ) is not None )
        else :
            d = e0['nsamp'] - sum( 1 for r in acc.rows )                 # a few percent of the present ensemble
            ctx.true( tag + 'number of walkers taken', d == max( 1, size * case['d'] // 100 ), '%d of %d' % ( d, size ) )
            out = [( s.logL, s.allpars ) for s in ns.samples[len( acc.rows ):e0['nsamp']]]
            left = without( state, out )
            if left is None : ctx.bad( tag + 'sample was not in the ensemble', 'iteration %d' % t ); left = rest
            ctx.true( tag + 'not the worst walkers are taken', max( w[0] for w in out ) <= min( w[0] for w in rest ), 'iteration %d' % t )
            for e in g : ctx.eq( tag + 'threshold', e['low'], max( w[0] for w in out ) )
            want = size - d if size - d <= N else N - max( 1, N * case['d'] // 100 )
            if t > 0 : ctx.true( tag + 'a survivor disappears', without( out + rest, groups[t-1][0]['before'] ) is not None, 'iteration %d' % t )
            ctx.true( tag + 'survivor changed', without( left, rest ) is not None and len( rest ) == want, '%d of %d' % ( len( rest ), want ) )
        ctx.eq( tag + 'number of samples', e0['nsamp'], len( acc.kept ) + d if case.get( 'maxsize' ) is None else min( len( acc.kept ) + d, case['maxsize'] ) )
        # order of equals is free : take the walkers as they come from the samples
        acc.take( out, size )
        size = N
        acc.weed( case.get( 'maxsize' ) )
        state = g[-1]['after']
        for w in state :
            if not w[0] >= max( o[0] for o in out ) : ctx.bad( tag + 'walker below the threshold', 'iteration %d: %g < %g' % ( t, w[0], out[-1][0] ) )
        # should it have stopped before ?
        stop( case, ctx, ns, acc, t + 1, nit, N, d, tag )
    if nit == 0 : ctx.bad( tag + 'no iterations' ); return
    if phantom :
        fin = [( s.logL, s.allpars ) for s in ns.samples[len( acc.rows ):]]
        ctx.true( tag + 'final samples were not in the ensemble', without( state, fin ) is not None )
        final = sorted( fin, key=lambda w : w[0] )
    else : final = sorted( state, key=lambda w : w[0] )
    acc.take( final, N )
    results( case, ctx, ns, acc, keep, fl, ev, tag, nit )

SRC = None

def stop( case, ctx, ns, acc, it, nit, N, d, tag ) :
    """ after it iterations: should the sampler go on ? """
    mn, mx, end = case['stop']
    info = acc.info()
    goon = True
    if it >= mn :
        if acc.logdZ() < ns.tolerance : goon = False
        if it > end * N * info / d : goon = False
    amb = abs( it - end * N * info / d ) < 1e-6 or abs( acc.logdZ() - ns.tolerance ) < 1e-9
    if mx is not None and it >= mn :
        if it > mx : goon = False
        elif it == mx and goon : amb = True             # up to and including maxIterations, or not
    if amb : return
    if goon and it == nit : ctx.bad( tag + 'stopped too early', 'after %d iterations ( info %.4g )' % ( nit, info ) )
    if not goon and it < nit : ctx.bad( tag + 'did not stop', 'after %d of %d iterations ( info %.4g )' % ( it, nit, info ) )

def results( case, ctx, ns, acc, keep, fl, ev, tag, nit ) :
    ss = ns.samples
    logZ, info = acc.logZ(), acc.info()
    N = case['N']
    ctx.near( tag + 'logZ', ns.logZ, logZ, 1e-10, 1e-12 )
    ctx.near( tag + 'evidence', ns.evidence, logZ / math.log( 10 ), 1e-10, 1e-12 )
    ctx.near( tag + 'returned evidence', ev, logZ / math.log( 10 ), 1e-10, 1e-12 )
    ctx.near( tag + 'information', ns.information, info, 1e-8, 1e-9 )
    ctx.near( tag + 'precision', ns.precision, math.sqrt( max( info, 0 ) / N ) / math.log( 10 ), 1e-6, 1e-7 )
    ctx.near( tag + 'logZprecision', ns.logZprecision, math.sqrt( max( info, 0 ) / N ), 1e-6, 1e-7 )
    ctx.near( tag + 'samples.logZ', ss.logZ, logZ, 1e-10, 1e-12 )
    ctx.near( tag + 'samples.evidence', ss.evidence, logZ / math.log( 10 ), 1e-10, 1e-12 )
    ctx.near( tag + 'samples.info', ss.info, info, 1e-8, 1e-9 )
    ctx.near( tag + 'prior mass accounted for', math.fsum( math.exp( r[2] - r[0] ) for r in acc.rows ), 1.0, 1e-9 + math.exp( acc.logX ) )
    rows = [acc.rows[k] for k in acc.kept]
    ctx.eq( tag + 'number of samples at the end', len( ss ), len( rows ) )
    if len( ss ) != len( rows ) : return
    ctx.eq( tag + 'sample numbers', [s.id for s in ss], acc.kept )
    mx = max( r[2] for r in rows )
    tot = math.fsum( math.exp( r[2] - mx ) for r in rows )
    wgt = numpy.array( [math.exp( r[2] - mx ) / tot for r in rows] )
    ctx.near( tag + 'logL of the samples', [s.logL for s in ss], [r[0] for r in rows], 1e-12 )
    ctx.near( tag + 'weights', ss.getWeightEvolution(), wgt, 1e-9, 1e-13 )
    ctx.near( tag + 'sum of weights', sum( ss.getWeightEvolution() ), 1.0, 1e-9 )
    ctx.eq( tag + 'likelihood does not increase', all( a.logL <= b.logL for a, b in zip( ss[:-1], ss[1:] ) ), True )
    dyn = ns.model.isDynamic()
    prob = ns.problem
    for s, r in zip( ss, rows ) :
        L = ns.distribution.logLikelihood( ns.walkers[0].problem if not dyn else sampleproblem( ns, s ), s.allpars )
        ctx.near( tag + 'logL belongs to the parameters', L, s.logL, 1e-12 )
        if len( s.parameters ) != s.model.npars : ctx.bad( tag + 'sample model and parameters', '%d vs %d' % ( len( s.parameters ), s.model.npars ) )
        for k in s.fitIndex :
            v = s.allpars[k]
            if k >= s.model.npars : continue                    # nuisance parameter
            pr = s.model.getPrior( k ) if k >= 0 else ns.distribution.hyperpar[k].prior
            if v < pr.lowLimit - 1e-9 or v > pr.highLimit + 1e-9 : ctx.bad( tag + 'sample outside the prior', 'par %d = %g' % ( k, v ) )
    ctx.eq( tag + 'maximum likelihood', ss[ss.maxLikelihoodIndex].logL, max( s.logL for s in ss ) )
    cum, med = 0, None
    amb = False
    for i, w in enumerate( wgt ) :
        cum += w
        if abs( cum - 0.5 ) < 1e-9 : amb = True
        if cum >= 0.5 : med = i; break
    if not amb : ctx.eq( tag + 'median', ss.medianIndex, med )
    ctx.near( tag + 'modus', wgt[ss.modusIndex], wgt.max(), 1e-9 )
    xx = A( -0.7, 0.0, 0.9 )
    yy = numpy.array( [s.model.copy().result( xx, s.parameters ) for s in ss] )
    ctx.near( tag + 'average model', ss.average( xx ), wgt @ yy, 1e-9, 1e-10 )
    yx = numpy.array( [s.model.copy().result( ns.xdata, s.parameters ) for s in ss] )
    ctx.near( tag + 'modelfit', ns.modelfit, wgt @ yx, 1e-9, 1e-10 )
    mce = numpy.sqrt( wgt @ ( yy - wgt @ yy ) ** 2 )
    ctx.near( tag + 'monteCarloError', ss.monteCarloError( xx ), mce, 1e-5, 1e-6 )
    nh = ns.distribution.nphypar
    if nh > 0 :
        hh = numpy.array( [s.hypars for s in ss] )
        ah = wgt @ hh
        sh = numpy.sqrt( wgt @ ( hh - ah ) ** 2 )
        for nm in ( 'ns', 'ss' ) :
            o = ns if nm == 'ns' else ss
            ctx.near( tag + nm + '.hypars', o.hypars, ah, 1e-9, 1e-12 )
            ctx.near( tag + nm + '.stdevHypars', o.stdevHypars, sh, 1e-5, 1e-6 )
            ctx.near( tag + nm + '.scale', o.scale, ah[0], 1e-9 )
            ctx.near( tag + nm + '.stdevScale', o.stdevScale, sh[0], 1e-5, 1e-6 )
    ctx.outcome( ( nit, [round( v, 8 ) for v in wgt], [round( float( s.logL ), 8 ) for s in ss] ) )
    if dyn : return
    for s in ss :
        fix = [k for k in range( len( s.allpars ) ) if k not in fl and k - len( s.allpars ) not in fl]
        for k in fix :
            np = ns.problem.npars
            want = keep[k] if keep and k in keep else None
            if want is None and k >= np and not ( 'acc' in case['conf'] ) : want = { 0 : 1.0, 1 : 2.0 }[k-np]
            if want is not None and s.allpars[k] != want : ctx.bad( tag + 'kept parameter changed', 'par %d = %g, not %g' % ( k, s.allpars[k], want ) )
        ctx.eq( tag + 'fitted parameters', sorted( int( k ) for k in s.fitIndex ), sorted( fl ) )
    pp = numpy.array( [s.parameters for s in ss] )
    ap = wgt @ pp
    sp = numpy.sqrt( wgt @ ( pp - ap ) ** 2 )
    for k in range( ns.model.npars ) :
        pr = ns.model.getPrior( k )
        if isinstance( pr, B.CircularUniformPrior ) :
            ph = ( pp[:,k] - pr.lowLimit ) * 2 * math.pi / ( pr.highLimit - pr.lowLimit )
            a = math.atan2( wgt @ numpy.sin( ph ), wgt @ numpy.cos( ph ) )
            dp = ( ph - a + math.pi ) % ( 2 * math.pi ) - math.pi
            sp[k] = math.sqrt( wgt @ dp ** 2 ) * ( pr.highLimit - pr.lowLimit ) / ( 2 * math.pi )
            ap[k] = pr.lowLimit + ( a % ( 2 * math.pi ) ) / ( 2 * math.pi ) * ( pr.highLimit - pr.lowLimit )
            if math.hypot( wgt @ numpy.sin( ph ), wgt @ numpy.cos( ph ) ) < 1e-6 : ap[k] = numpy.nan; sp[k] = numpy.nan
    ok = numpy.isfinite( ap )
    for nm, o in ( ( 'ns', ns.parameters ), ( 'samples', ss.parameters ), ( 'model', ns.model.parameters ) ) : ctx.near( tag + nm + '.parameters', numpy.asarray( o )[ok], ap[ok], 1e-9, 1e-10 )
    for nm, o in ( ( 'ns', ns.stdevs ), ( 'samples', ss.stdevs ), ( 'model', ns.model.stdevs ), ( 'standardDeviations', ns.standardDeviations ) ) : ctx.near( tag + nm + '.stdevs', numpy.asarray( o )[ok], sp[ok], 1e-5, 1e-6 )

def sampleproblem( ns, s ) :
    p = ns.problem.copy()
    p.model = s.model.copy()
    return p

def cases( tier ) :
    th = tier == 'thorough'
    out = []
    def lat( conf, N, d, stop, dev, point, **kw ) :
        out.append( dict( key='lattice.%s.%d.%d.%s%s' % ( conf, N, d, stop, ''.join( '.%s%s' % ( k, v ) for k, v in kw.items() ) ), f='lattice', conf=conf, N=N, d=d, stop=stop, dev=dev, point=point, **kw ) )
    for conf in CONF :
        lat( conf, 3, 1, [3,5,2.0], 3 if th else 1, 24 if th else 30 )
        lat( conf, 4, 2, [2,3,2.0], 2, 24 if th else 12 )
        if th : lat( conf, 5, 3, [2,4,1.0], 2, 30 )
    lat( 'const', 2, 1, [2,2,2.0], 99, 99 )
    lat( 'const.fit', 2, 1, [2,1,2.0], 3 if th else 2, 99 )
    lat( 'const', 3, 1, [1,99,0.5], 2, 20 )
    lat( 'const', 3, 1, [1,99,1.5], 2 if th else 1, 40 )
    lat( 'const', 3, 1, [0,99,1.0], 2, 20 )
    lat( 'wgt.fit', 4, 1, [1,None,0.6], 2 if th else 1, 20 )
    lat( 'const', 4, 3, [2,99,1.0], 2, 20 )
    for mx in ( 1, 2, 3, 5 ) : lat( 'const.fit', 3, 1, [4,5,2.0], 2 if th else 1, 20, maxsize=mx )
    for mx in ( 2, 3 ) : lat( 'const', 4, 2, [3,5,2.0], 1, 20, maxsize=mx )
    for conf in ( 'const', 'nonlin', 'fit.keep', 'circ' ) : lat( conf, 3, 1, [2,3,2.0], 1, 20, twice=1 )
    for tol in ( -0.3, -1.0, -2.0, -1000. ) : lat( 'const', 3, 1, [1,12,50.0], 2 if th else 1, 30, tol=tol )
    def real( f, conf, N, d, eng, dev, point, stop, **kw ) :
        out.append( dict( key='%s.%s.%d.%d.%s%s' % ( f, conf, N, d, '+'.join( eng ), ''.join( '.%s%s' % ( k, v ) for k, v in kw.items() ) ), f=f, conf=conf, N=N, d=d, eng=eng, dev=dev, point=point, stop=stop, **kw ) )
    p1 = 80 if th else 8
    for conf in CONF :
        real( 'real', conf, 4, 1, ['chord','galilean'] if conf != 'circ' else ['chord','gibbs'], 1, p1, [3,5,2.0] )
    for eng in ( ['gibbs'], ['step'], ['random'], ['chord','galilean','gibbs','step'] ) : real( 'real', 'fit.keep', 5, 2, eng, 1, p1, [3,5,2.0] )
    for conf in ( 'nonlin', 'const.fit' ) : real( 'real', conf, 4, 1, ['chord'], 1, p1, [3,5,2.0], copymode=1 )
    for conf in ( 'errxy', 'errxy.fit' ) : real( 'real', conf, 4, 1, ['chord','gibbs'], 1, p1, [3,4,2.0] )
    real( 'real', 'evid', 4, 1, ['birth','death','struct'], 1, p1, [3,5,2.0] )
    for conf in ( 'dynpoly', 'dynpoly.fit', 'rep', 'splines' ) :
        real( 'real', conf, 4, 1, ['birth','death','chord'], 1, p1, [3,6,2.0] )
        real( 'real', conf, 4, 2, ['birth','death'] + ( ['struct'] if conf == 'splines' else [] ) + ['galilean','chord'], 1, p1, [3,6,2.0] )
        real( 'real', conf, 4, 1, ['birth','death','chord'], 1, p1, [3,4,2.0], copymode=1 )
    for conf in ( 'const', 'fit.keep', 'nonlin', 'nonlin.fit', 'wgt.fit' ) :
        real( 'phantom', conf, 5, 4, ['chord'], 1, p1, [3,5,2.0] )
        real( 'phantom', conf, 6, 1, ['galilean','chord'], 1, p1, [2,4,2.0] )
        for bb in ( True, ) : real( 'boost', conf, 4, 1, ['chord','galilean'], 1, p1, [3,5,2.0], boost=bb )
    real( 'phantom', 'const', 50, 4, ['chord'], 0, 0, [3,5,2.0] )
    real( 'phantom', 'nonlin', 50, 4, ['chord'], 0, 0, [3,5,2.0] )
    if th :
        for conf in ( 'const', 'fit.keep', 'nonlin' ) :
            real( 'real', conf, 3, 1, ['chord'], 2, 10, [2,3,2.0] )
    return out
