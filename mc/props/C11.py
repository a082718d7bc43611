""" C11 log likelihoods """
import numpy, math, itertools
import BayesicFitting as B
import lik
from lik import *

LEVEL = 'exploration'
RULE = ( 'every error distribution (and mixtures of two) x problem (classic, multiple output, errors in x and y, cyclic outcome) x weights x accuracies x parameter '
         'vectors x hyper parameters; log likelihood, per-datum list, alternative calculation and constrained version compared with the documented formula' )
ASSUME = ['5 data points; parameter and hyper parameter vectors from fixed lists']
BOUNDS = { 'quick' : 'all combinations; hyper parameter histories of depth 3', 'thorough' : 'all combinations; hyper parameter histories of depth 4' }
BUDGET = { 'quick' : 60, 'thorough' : 600 }

def cases( tier ) :
    out = [{ 'key' : 'L.%s.%s.w%s.a%s' % c, 't' : 'L', 'c' : list( c ) } for c in classic_combos()]
    for a in XYACC :
        for w in WGT :
            for m in ( 'line','comp' ) : out += [{ 'key' : 'XY.%s.%s.%s' % ( a, w, m ), 't' : 'XY', 'c' : [a, w, m] }]
    for d in ( 'gauss','laplace','cauchy','uniform','expon','gauss+laplace','gauss2d' ) :
        out += [{ 'key' : 'H.' + d, 't' : 'H', 'c' : [d, 3 if tier == 'quick' else 4] }]
    for m in ( 'poly','harm','comp' ) :
        for arb in ( 'none','fitter','levenberg','curve' ) :
            for w in ( 'none','vec' ) :
                for a in ( 'none','vec','sc' ) :
                    out += [{ 'key' : 'model.%s.%s.w%s.a%s' % ( m, arb, w, a ), 't' : 'model', 'c' : [m, arb, w, a] }]
    for d in ( 'gauss','laplace','cauchy','uniform','expon' ) :
        out += [{ 'key' : 'scale.%s.%s' % ( d, w ), 't' : 'scale', 'c' : [d, w] } for w in ( ( 'none','vec' ) if d != 'cauchy' else ( 'none', ) )]
    return out

def check( ctx, e, p, pars, ref, tag='' ) :
    keep = pars.copy()
    L = e.logLikelihood( p, pars )
    ctx.near( 'logL' + tag, L, numpy.sum( ref ), 1e-10, 1e-10, pars )
    ld = numpy.asarray( e.logLdata( p, pars ) )
    ctx.near( 'logLdata' + tag, ld.ravel(), ref, 1e-10, 1e-10, pars )
    ctx.near( 'logL-again' + tag, e.logLikelihood( p, pars ), numpy.sum( ref ), 1e-10, 1e-10, pars )
    ctx.near( 'pars-changed' + tag, pars, keep, 0, 0 )
    ctx.outcome( [L] )

def run_case( case, ctx ) :
    c = case['c']
    if case['t'] == 'L' :
        d, pr, w, a = c
        p, wgt, acc = makeproblem( pr, w, a )
        e = makedist( d )
        ctx.eq( 'nphypar', e.nphypar, nhyp( d ) )
        for par in MODEL[pr][3] :
            for hy in hyps( d ) :
                pars = numpy.concatenate( ( par, hy ) )
                ref = refdata( pr, d, par, hy, wgt, acc )
                check( ctx, e, p, pars, ref )
                if numpy.all( numpy.isfinite( ref ) ) and hasattr( e, 'logLikelihood_alt' ) :
                    ctx.near( 'logL-alt', e.logLikelihood_alt( p, pars ), numpy.sum( ref ), 1e-9, 1e-9, pars )
                mock = p.result( par )
                ctx.near( 'logLdata-mock', numpy.asarray( e.logLdata( p, pars, mockdata=mock ) ).ravel(), ref, 1e-10, 1e-10, pars )
        # constrained
        e2 = e.copy()
        ctx.near( 'copy', e2.logLikelihood( p, pars ), numpy.sum( ref ), 1e-10, 1e-10 )
        e.constrain = lambda logL, problem, allpars, low : logL - 7.5 - numpy.sum( allpars )
        e.lowLhood = -10.0
        ctx.near( 'constrained', e.logLikelihood( p, pars ), numpy.sum( ref ) - 7.5 - numpy.sum( pars ), 1e-10, 1e-10 )
        ctx.near( 'copy-unconstrained', e2.logLikelihood( p, pars ), numpy.sum( ref ), 1e-10, 1e-10 )
        e3 = e.copy()
        ctx.near( 'copy-constrained', e3.logLikelihood( p, pars ) if ( setattr( e3, 'lowLhood', -10.0 ) is None ) else 0, numpy.sum( ref ) - 7.5 - numpy.sum( pars ), 1e-10, 1e-10 )
        e.constrain = None
        ctx.near( 'unconstrained', e.logLikelihood( p, pars ), numpy.sum( ref ), 1e-10, 1e-10 )
        # changed weights
        if w == 'vec' and pr in ( 'line','comp' ) :
            p.weights = W5[::-1].copy()
            ref = refdata( pr, d, par, hy, W5[::-1], acc )
            check( ctx, e, p, pars, ref, '-neww' )
            if numpy.all( numpy.isfinite( ref ) ) and hasattr( e, 'logLikelihood_alt' ) : ctx.near( 'logL-alt-neww', e.logLikelihood_alt( p, pars ), numpy.sum( ref ), 1e-9, 1e-9, pars )
        if a == 'none' and pr == 'line' :
            p.setAccuracy( 0.45 )
            check( ctx, e, p, pars, refdata( pr, d, par, hy, p.weights, 0.45 ), '-newacc' )
    elif case['t'] == 'XY' :
        a, w, m = c
        p = xyproblem( a, w, m )
        e = B.Gauss2dErrorDistribution()
        for par in xypars( m ) :
            for s in ( 0.8, 1.7 ) + ( () if a == 'none' else ( 0.0, ) ) :
                pars = numpy.append( par, s )
                ref = xyref( m, a, par, s, WGT[w] )
                check( ctx, e, p, pars, ref )
                ctx.near( 'logL-alt', e.logLikelihood_alt( p, pars ), numpy.sum( ref ), 1e-9, 1e-9, pars )
    elif case['t'] == 'scale' :
        scales( ctx, *c )
    elif case['t'] == 'model' :
        modeldist( ctx, *c )
    else :
        hyper( ctx, *c )

def modeldist( ctx, m, arb, w, a ) :
    """ the likelihood of a model is the Gauss-approximated evidence ( here by a fresh fitter, or the exact integral ) """
    from BayesicFitting.source.EvidenceProblem import EvidenceProblem
    from BayesicFitting.source.ModelDistribution import ModelDistribution
    x = numpy.linspace( -1, 1, 9 )
    y = A( 0.3, 0.5, 1.4, 0.9, 0.2, -0.7, 0.1, 0.6, 1.2 )
    wgt = None if w == 'none' else A( 1, 2, 1, 3, 0.5, 1, 1, 2, 1 )
    acc = { 'none' : None, 'sc' : 0.4, 'vec' : A( 0.3, 0.4, 0.2, 0.5, 0.3, 0.3, 0.6, 0.4, 0.5 ) }[a]
    def mk() :
        if m == 'poly' : mdl = B.PolynomialDynamicModel( 1 )
        elif m == 'harm' : mdl = B.HarmonicDynamicModel( 1, period=1.7 )
        else : mdl = B.HarmonicDynamicModel( 1, period=1.7 ) + B.PolynomialModel( 0 )
        mdl.setLimits( [-50.0] * mdl.npars, [50.0] * mdl.npars )
        return mdl
    for scale, lim in ( ( 0.6, None ), ( 1.0, [0.05,20.0] ) ) :
        if acc is not None and lim is not None : continue
        e = ModelDistribution( arbiter=None if arb == 'none' else arb, scale=scale, limits=lim )
        p = EvidenceProblem( model=mk(), xdata=x, ydata=y, weights=wgt, accuracy=acc )
        mdl = p.model
        for g in range( 2 ) :
            allp = numpy.append( mdl.parameters, scale )
            L = e.copy().logLikelihood( p, allp )
            D = mdl.partial( x, mdl.parameters )
            ww = ( 1.0 if wgt is None else wgt ) / ( 1.0 if acc is None else acc ** 2 ) * numpy.ones( 9 )
            H = D.T @ ( ww[:,None] * D )
            pars = numpy.linalg.solve( H, D.T @ ( ww * y ) )
            r = y - D @ pars
            if lim is None :
                s2 = scale ** 2
                sw = 9 if wgt is None else numpy.sum( wgt )
                wl = numpy.ones( 9 ) if wgt is None else wgt
                # exact integral over the parameters, flat prior of width 100
                sig = numpy.ones( 9 ) * ( 1.0 if acc is None else acc ) * scale
                logz = -0.5 * numpy.sum( ww * r * r ) / s2 - numpy.sum( wl * numpy.log( math.sqrt( 2 * math.pi ) * sig ) )
                logz += 0.5 * len( pars ) * math.log( 2 * math.pi * s2 ) - 0.5 * numpy.linalg.slogdet( H )[1] - len( pars ) * math.log( 100.0 )
                ctx.near( 'evidence', L, logz, 1e-3, 1e-3, ( g, scale ) )
            else :
                f = B.Fitter( x, mdl )
                f.fit( y, weights=wgt )
                ctx.near( 'evidence-fitter', L, f.getLogZ( limits=[-50.0,50.0], noiseLimits=lim ), 1e-3, 1e-3, ( g, scale ) )
            ctx.near( 'pars', allp[:mdl.npars], pars, 2e-2, 2e-2 ) if arb == 'levenberg' else ctx.near( 'pars', allp[:mdl.npars], pars, 1e-3, 1e-3 )
            ctx.outcome( [L] )
            if not mdl.grow() : mdl.grow()
            mdl.setLimits( [-50.0] * mdl.npars, [50.0] * mdl.npars )

def scales( ctx, d, w ) :
    """ maximum likelihood estimate of the scale ( stationary point of the likelihood to the scale ) """
    p, wgt, acc = makeproblem( 'line', w )
    e = makedist( d )
    for par in MODEL['line'][3] :
        r = refresid( 'line', par )
        ww = numpy.ones( 5 ) if wgt is None else wgt
        for pw in ( ( 2.0, 1.3 ) if d == 'expon' else ( 0.0, ) ) :
            pars = numpy.concatenate( ( par, [1.0] if d != 'expon' else [1.0,pw] ) )
            s = e.getScale( p, pars )
            if d == 'gauss' : x = math.sqrt( numpy.sum( ww * r * r ) / numpy.sum( ww ) )
            elif d == 'laplace' : x = numpy.sum( ww * abs( r ) ) / numpy.sum( ww )
            elif d == 'uniform' : x = numpy.max( abs( r ) )
            elif d == 'expon' : x = ( numpy.sum( ww * abs( r ) ** pw ) / numpy.sum( ww ) ) ** ( 1 / pw )
            else : continue
            ctx.near( 'getScale', s, x, 1e-9, 1e-12 )
            ctx.outcome( [s] )
    import scipy.special as sp
    f = { 'gauss' : 1.0, 'laplace' : math.sqrt( 2 ), 'uniform' : 1 / math.sqrt( 3 ), 'cauchy' : 1.0 }
    for s in ( 0.3, 2.0 ) :
        if d == 'expon' :
            for pw in ( 1.0, 2.0, 3.5 ) : ctx.near( 'toSigma', e.toSigma( [s,pw] ), s * math.sqrt( sp.gamma( 3 / pw ) / sp.gamma( 1 / pw ) ), 1e-9 )
        else : ctx.near( 'toSigma', e.toSigma( s ), s * f[d], 1e-9 )

# ---- histories of the hyper parameters ------------------------------------------------
def hyper( ctx, d, depth ) :
    """ reference : list per hyper parameter of [value, limits or None] ; ops on ( original, copy ) pairs """
    if d == 'gauss2d' : mk = B.Gauss2dErrorDistribution ; nh = 1
    else : mk = ( lambda **kw : makedist( d ) ) if '+' in d else MK[d] ; nh = nhyp( d )
    names = ['set0','set1','lim','lim2','fix','copy','swap']
    def limof( k, lo, hi ) :
        return [lo,hi] if nh == 1 else [[lo]*nh, [hi]*nh]
    def start() :
        e = mk()
        val = [float( v ) for v in e.hypar]
        return { 'e' : e, 'o' : None, 'm' : [val, [None] * nh, [True] * nh], 'mo' : None }
    def observe( e ) :
        v = [float( x ) for x in e.hypar]
        l = []
        for h in e.hyperpar :
            pl = None
            if h.prior is not None and h.prior.hasLimits() : pl = [float( h.prior.lowLimit ), float( h.prior.highLimit )]
            l += [pl]
        return [v, l, [bool( h.isFixed ) for h in e.hyperpar]]
    def apply( s, op ) :
        e, m = s['e'], s['m']
        if op == 'set0' and nh == 1 : e.scale = 2.5 ; m[0][0] = 2.5
        elif op == 'set0' : e.hyperpar[0].hypar = 2.5 ; m[0][0] = 2.5
        elif op == 'set1' : e.hyperpar[-1].hypar = 0.4 ; m[0][-1] = 0.4
        elif op in ( 'lim','lim2' ) :
            lo, hi = ( 0.1, 3.0 ) if op == 'lim' else ( 0.2, 9.0 )
            if '+' in d : e.hyperpar[-1].setLimits( [0.1,0.9] ) ; m[1][-1] = [0.1,0.9] ; m[2][-1] = False
            else :
                e.setLimits( limof( 0, lo, hi ) )
                m[1][:] = [[lo,hi] for k in range( nh )]
                m[2][:] = [False] * nh
        elif op == 'fix' :
            e.keepFixed( { 0 : 1.75 } )
            m[0][0] = 1.75
            m[2] = [k == 0 or ( m[1][k] is None and not prior0[k] ) for k in range( nh )]
        elif op == 'copy' :
            s['o'] = e.copy()
            s['mo'] = [list( m[0] ), [None if k is None else list( k ) for k in m[1]], list( m[2] )]
        elif op == 'swap' :
            if s['o'] is None : return False
            s['e'], s['o'], s['m'], s['mo'] = s['o'], s['e'], s['mo'], s['m']
        return True
    prior0 = [False] * ( nh - 1 ) + ['+' in d]
    for h in itertools.product( names, repeat=depth ) :
        s = start()
        if '+' in d :
            s['m'][1] = observe( s['e'] )[1]
            s['m'][2][-1] = False                   # the fraction has a prior
        ok = True
        for i, op in enumerate( h ) :
            if not apply( s, op ) : ok = False ; break
            ctx.trans()
            for tag, e, m in ( ( 'self', s['e'], s['m'] ), ( 'other', s['o'], s['mo'] ) ) :
                if e is None : continue
                g = observe( e )
                ctx.ev()
                if g != m : ctx.bad( 'hyper-%s:%s' % ( tag, op ), '%s : got %s expected %s' % ( h[:i+1], g, m ) )
                elif e.nphypar != nh : ctx.bad( 'nphypar', h[:i+1] )
            ctx.outcome( observe( s['e'] ) )
    # construction with scale and limits; copy of it
    if '+' not in d :
        for lim in ( None, 0 ) :
            kw = { 'scale' : 0.37 }
            if lim is not None : kw['limits'] = limof( 0, 0.05, 5.0 )
            e = mk( **kw )
            x = observe( e )
            ctx.near( 'scale', e.scale, 0.37, 0, 0 )
            ctx.eq( 'limits', x[1], [None if lim is None else [0.05,5.0]] * nh )
            c = e.copy()
            ctx.eq( 'copy-same', observe( c ), x )
            ctx.eq( 'orig-same', observe( e ), x )
            for u in ( 0.1, 0.5, 0.9 ) :
                if lim is None : continue
                for k in range( nh ) :
                    v = e.unit2Domain( u, k )
                    ctx.true( 'scale-in-limits', 0.05 <= v <= 5.0 )
                    ctx.near( 'inverse', e.domain2Unit( v, k ), u, 1e-9 )
                    if k == 0 : ctx.near( 'jeffreys', v, 0.05 * 100 ** u, 1e-9 )
                    ctx.near( 'copy-map', c.unit2Domain( u, k ), v, 1e-12 )
