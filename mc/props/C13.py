""" C13 problems """
import numpy, math, itertools
import BayesicFitting as B
from BayesicFitting.source.MultipleOutputProblem import MultipleOutputProblem
from BayesicFitting.source.EvidenceProblem import EvidenceProblem
from lik import *
import lik

LEVEL = 'exploration'
RULE = ( 'every problem class x model x weights x accuracies: result, residuals (wrapped when cyclic), weighted squares, partials, derivative, variances, counts, '
         'unit/domain mapping; then all histories of changing weights / accuracy / copying, re-observed after each step' )
ASSUME = ['5 data points; residuals less than 1.5 period off for cyclic outcomes']
BOUNDS = { 'quick' : 'all configurations; histories of depth 3', 'thorough' : 'histories of depth 4' }
BUDGET = { 'quick' : 60, 'thorough' : 300 }

def cases( tier ) :
    dep = 3 if tier == 'quick' else 5
    out = []
    for pr in MODEL :
        if pr == 'cat' : continue
        nd = MODEL[pr][4]
        for w in ( 'none','vec' ) + ( ( 'mat', ) if nd > 1 else () ) :
            for a in ( 'none','sc','vec' ) + ( ( 'mat', ) if nd > 1 else () ) :
                out += [{ 'key' : 'P.%s.w%s.a%s' % ( pr, w, a ), 't' : 'P', 'c' : [pr, w, a], 'depth' : dep }]
    for a in XYACC :
        for w in WGT :
            for m in ( 'line','comp' ) : out += [{ 'key' : 'XY.%s.%s.%s' % ( a, w, m ), 't' : 'XY', 'c' : [a, w, m], 'depth' : dep }]
    out += [{ 'key' : 'evidence.' + m, 't' : 'E', 'c' : m } for m in ( 'poly','harm','rep' )]
    out += [{ 'key' : 'cont.%s' % m, 't' : 'T', 'c' : m } for m in CONTP]
    out += [{ 'key' : 'cyclize.%g' % P, 't' : 'C', 'c' : P } for P in ( 1.0, 6.0, 2 * math.pi, 360.0 )]
    return out

# the same ( whole ) numbers in another container
XI = numpy.array( [0,1,3,4,6] )
XI2 = numpy.array( [[0,1],[1,0],[2,2],[3,5],[4,3]] )
YI = numpy.array( [1,3,4,9,12] )
WI = numpy.array( [1,2,1,3,1] )
AI = numpy.array( [1,1,2,1,2] )
CONT = { 'ints' : lambda v : numpy.array( v, dtype=int ), 'list' : lambda v : numpy.asarray( v, dtype=int ).tolist(),
         'floats' : lambda v : numpy.asarray( v, dtype=float ).tolist(), 'tuple' : lambda v : tuple( numpy.asarray( v, dtype=int ).tolist() ),
         'strided' : lambda v : numpy.repeat( numpy.array( v, dtype=float ), 2, axis=0 )[::2] }
CONTP = {
  'line'  : ( B.ClassicProblem, lambda : B.PolynomialModel( 1 ), XI, YI, A( 0.7, 1.6 ), ( 'gauss','laplace','cauchy','poisson','gengauss','uniform' ) ),
  'plane' : ( B.ClassicProblem, lambda : B.PolySurfaceModel( 1 ), XI2, YI, A( 0.7, 1.1, 0.8 ), ( 'gauss','laplace','poisson' ) ),
  'spl'   : ( B.ClassicProblem, lambda : B.BSplinesModel( knots=[0,2,4,6] ), XI, YI, A( 0.7, 1.1, 3.0, 6.0, 9.0, 14.0 ), ( 'gauss','laplace' ) ),
  'cyc'   : ( B.ClassicProblem, lambda : cyc(), XI, YI, A( 0.7, 1.6 ), ( 'gauss', ) ),
  'logi'  : ( B.ClassicProblem, lambda : B.LogisticModel(), XI, numpy.array( [0,1,1,0,1] ), A( 1.0, 0.8, 0.3 )[:B.LogisticModel().npars], ( 'bernoulli', ) ),
  'soft'  : ( MultipleOutputProblem, lambda : soft(), XI2, numpy.array( [[1,0,0],[0,1,0],[0,0,1],[1,0,0],[0,1,0]] ), SP, ( 'gauss','laplace' ) ),
  'cat'   : ( B.ClassicProblem, lambda : soft(), XI2, numpy.array( [0,2,1,1,2] ), SP, ( 'bernoulli', ) ),
  'xy'    : ( B.ErrorsInXandYProblem, lambda : B.PolynomialModel( 1 ), XI, YI, A( 0.7, 1.6, 0.1, 1.2, 2.9, 4.1, 5.8 ), ( 'gauss2d', ) ),
}

def containers( ctx, name ) :
    cls, mk, x, y, par, dists = CONTP[name]
    def look( cx, cy, uw, ua ) :
        kw = { 'weights' : cy( WI ) } if uw else {}
        if ua : kw['accuracy'] = cy( AI ) if name != 'xy' else [1,2]
        if name == 'xy' : kw['prior'] = B.GaussPrior( scale=0.5 )
        m = mk()
        m.setLimits( [-20.0] * m.npars, [20.0] * m.npars )
        if name == 'cat' : kw.pop( 'accuracy', None )
        p = cls( model=m, xdata=cx( x ), ydata=cy( y ), **kw )
        ctx.trans()
        out = [p.result( par ), p.residuals( par ) if name != 'cat' else 0, p.sumweight, p.varyy]
        if name != 'cat' : out += [p.weightedResSq( numpy.append( par, 1.3 ) ), p.partial( par )] if name != 'xy' else [p.partial( par )]
        for d in dists :
            e = B.Gauss2dErrorDistribution() if d == 'gauss2d' else NEWD[d]()
            hy = [h.hypar for h in e.hyperpar]
            ap = numpy.append( par, hy )
            fi = numpy.arange( len( ap ) )
            out += [e.logLikelihood( p, ap )]
            if name != 'cat' : out += [e.partialLogL( p, ap, fi )]
        return numpy.concatenate( [numpy.ravel( numpy.asarray( q, dtype=float ) ) for q in out] )
    fl = lambda v : numpy.array( v, dtype=float ) if name not in ( 'cat', ) else numpy.array( v )
    for uw in ( 0, 1 ) :
        for ua in ( 0, 1 ) :
            if name == 'soft' and ( uw or ua ) : continue
            ref = look( fl, fl, uw, ua )
            for n, c in CONT.items() :
                ctx.near( 'container', look( c, fl, uw, ua ), ref, 1e-12, 1e-12, '%s x:%s w%d a%d' % ( name, n, uw, ua ) )
                if name == 'cat' and n in ( 'floats','strided' ) : continue
                ctx.near( 'container', look( fl, c, uw, ua ), ref, 1e-12, 1e-12, '%s data:%s w%d a%d' % ( name, n, uw, ua ) )
                ctx.near( 'container', look( c, c, uw, ua ), ref, 1e-12, 1e-12, '%s all:%s w%d a%d' % ( name, n, uw, ua ) )
            ctx.outcome( numpy.round( ref, 6 ) )

NEWD = { 'gauss' : lambda : B.GaussErrorDistribution( scale=1.3 ), 'laplace' : lambda : B.LaplaceErrorDistribution( scale=1.3 ), 'cauchy' : lambda : B.CauchyErrorDistribution( scale=1.3 ),
  'poisson' : lambda : B.PoissonErrorDistribution(), 'gengauss' : lambda : B.ExponentialErrorDistribution( scale=1.3, power=1.5 ), 'uniform' : lambda : B.UniformErrorDistribution( scale=3.0 ),
  'bernoulli' : lambda : B.BernoulliErrorDistribution() }

def observe( ctx, tag, p, name, wgt, acc ) :
    mk, x, y, pars, nd, cy = MODEL[name]
    m = mk()
    sh = y.shape
    fw = flat( wgt, sh )
    fa = 0.0 if acc is None else flat( acc, sh )
    ctx.eq( tag + ':npars', p.npars, m.npars )
    ctx.eq( tag + ':hasWeights', p.hasWeights(), wgt is not None )
    ctx.eq( tag + ':hasAccuracy', bool( p.hasAccuracy ), acc is not None )
    ctx.near( tag + ':sumweight', p.sumweight, y.size if wgt is None else numpy.sum( fw ), 1e-12 )
    ctx.near( tag + ':varyy', p.varyy, numpy.asarray( fa ) ** 2, 1e-12 )
    ctx.eq( tag + ':dynamic', bool( p.isDynamic() ), bool( m.isDynamic() ) )
    for par in pars :
        keep = par.copy()
        r = refresid( name, par ).ravel()
        res = m.result( x, par )
        ctx.near( tag + ':result', p.result( par ), res, 1e-12 )
        ctx.near( tag + ':residuals', numpy.ravel( p.residuals( par ) ), r, 1e-10, 1e-10 )
        ctx.near( tag + ':residuals-mock', numpy.ravel( p.residuals( par, mockdata=res + 0.05 ) ), wrapall( y - res - 0.05, cy ).ravel(), 1e-10, 1e-10 )
        w = 1.0 if wgt is None else fw
        for extra in ( numpy.zeros( 0 ), A( 1.3 ), A( 0.7, 2.0 ) ) :           # hyper parameters behind the parameters
            ap = numpy.append( par, extra )
            ctx.near( tag + ':weightedResSq', p.weightedResSq( ap ), w * r * r, 1e-10, 1e-10 )
            r2, rw = p.weightedResSq( ap, extra=True )
            ctx.near( tag + ':wRS-extra2', r2, w * r * r, 1e-10, 1e-10 )
            ctx.near( tag + ':wRS-extra', rw, w * r, 1e-10, 1e-10 )
        part = p.partial( par )
        mp = m.partial( x, par )
        if nd == 1 : exp = numpy.asarray( mp )
        else : exp = numpy.array( [[mp[o][i] for o in range( nd )] for i in range( len( x ) )] ).reshape( -1, m.npars )      # row per flattened datum
        ctx.near( tag + ':partial', part, exp, 1e-10, 1e-10 )
        if nd == 1 : ctx.near( tag + ':derivative', p.derivative( par ), m.derivative( x, par ), 1e-10, 1e-10 )
        ctx.near( tag + ':pars-changed', par, keep, 0, 0 )
        ctx.outcome( r )

def wrapall( r, cy ) :
    if isinstance( cy, float ) : return wrap( r, cy )
    if cy is not None :
        for k in cy : r[:,k] = wrap( r[:,k], cy[k] )
    return r

def run_case( case, ctx ) :
    c = case['c']
    if case['t'] == 'T' : return containers( ctx, c )
    if case['t'] == 'P' :
        name, w, a = c
        y0 = MODEL[name][2].copy()
        p, wgt, acc = makeproblem( name, w, a )
        observe( ctx, 'new', p, name, wgt, acc )
        nd = MODEL[name][4]
        if nd > 1 :
            q = p.copy()
            observe( ctx, 'copy', q, name, wgt, acc )
            observe( ctx, 'orig', p, name, wgt, acc )
            return
        # histories : state = ( wgt, acc ) of self and other
        ops = ['w1','w0','a1','a2','a0','copy','swap']
        for h in itertools.product( ops, repeat=case['depth'] ) :
            if case['depth'] > 3 and name not in ( 'line','cyc' ) and len( set( h ) ) < 3 : continue
            p, wg, ac = makeproblem( name, w, a )
            q, qs = None, None
            st = [wg, ac]
            for i, o in enumerate( h ) :
                if o == 'w1' : st[0] = W5[::-1] + 0.1 ; p.weights = st[0].copy()
                elif o == 'w0' : st[0] = None ; p.weights = None
                elif o == 'a1' : st[1] = 1.7 ; p.setAccuracy( 1.7 )
                elif o == 'a2' : st[1] = 2 * ACC5 ; p.setAccuracy( 2 * ACC5 )
                elif o == 'a0' : st[1] = None ; p.setAccuracy( None )
                elif o == 'copy' : q, qs = p.copy(), list( st )
                elif o == 'swap' :
                    if q is None : break
                    p, q, st, qs = q, p, qs, st
                ctx.trans()
                for t, z, s in ( ( 'self', p, st ), ( 'other', q, qs ) ) :
                    if z is None : continue
                    ctx.near( 'hist:sumweight:' + t, z.sumweight, 5 if s[0] is None else numpy.sum( s[0] ), 1e-12, detail=h[:i+1] )
                    ctx.near( 'hist:varyy:' + t, z.varyy, 0.0 if s[1] is None else numpy.asarray( s[1] ) ** 2, 1e-12, detail=h[:i+1] )
                    ctx.eq( 'hist:hasacc:' + t, bool( z.hasAccuracy ), s[1] is not None, h[:i+1] )
            for t, z, s in ( ( 'self', p, st ), ( 'other', q, qs ) ) :
                if z is not None and ( len( set( h ) ) == len( h ) or case['depth'] == 3 and h[-1] in ( 'copy','swap' ) ) : observe( ctx, 'hist-' + t, z, name, s[0], s[1] )
        ctx.near( 'ydata-changed', MODEL[name][2], y0, 0, 0 )
    elif case['t'] == 'XY' :
        a, w, name = c
        mk, x, y, pars, nd, cy = MODEL[name]
        m = mk()
        m.setLimits( -3 * numpy.ones( m.npars ), 4 * numpy.ones( m.npars ) )
        kw = { k : ( v.copy() if isinstance( v, numpy.ndarray ) else v ) for k, v in XYACC[a][0].items() }
        kc = { k : numpy.array( v ) for k, v in kw.items() }
        pr = B.GaussPrior( scale=0.5 )
        wgt = WGT[w]
        p = B.ErrorsInXandYProblem( model=m, xdata=x.copy(), ydata=y.copy(), weights=wgt, prior=pr, **kw )
        for k in kw : ctx.near( 'input-changed', kw[k], kc[k], 0, 0 )
        q = p.copy()
        for tag, z in ( ( 'new', p ), ( 'copy', q ), ( 'orig', p ) ) :
            C = numpy.array( xycov( a ) )
            one5 = numpy.ones( 5 )
            np = m.npars
            ctx.eq( tag + ':npars', z.npars, np + 5 )
            ctx.near( tag + ':varyy', z.varyy * one5, C[:,0,0], 1e-12, 1e-14 )
            ctx.near( tag + ':varxx', z.varxx * one5, C[:,1,1], 1e-12, 1e-14 )
            ctx.near( tag + ':varxy', z.varxy * one5, C[:,0,1], 1e-12, 1e-14 )
            ctx.near( tag + ':det', z.determinant * one5, numpy.linalg.det( C ), 1e-10, 1e-14 )
            ctx.near( tag + ':sumweight', z.sumweight, 5 if wgt is None else numpy.sum( wgt ) )
            ctx.eq( tag + ':hasacc', bool( z.hasAccuracy ), a != 'none' )
            for par in xypars( name ) :
                pp, u = par[:np], par[np:]
                ctx.near( tag + ':result', z.result( par ), m.result( u, pp ), 1e-12 )
                sx, sp = z.splitParam( par )
                ctx.near( tag + ':split', numpy.append( sp, sx ), par, 0, 0 )
                yr, xr = z.getXYresiduals( par )
                ctx.near( tag + ':yres', yr, y - m.result( u, pp ), 1e-12, 1e-12 )
                ctx.near( tag + ':xres', xr, x - u, 1e-12, 1e-12 )
                P = numpy.zeros( ( 10, np + 5 ) )
                P[:5,:np] = m.partial( u, pp )
                for i in range( 5 ) :
                    P[i,np+i] = m.derivative( u, pp )[i]
                    P[5+i,np+i] = 1.0
                ctx.near( tag + ':partial', z.partial( par ), P, 1e-10, 1e-10 )
                for s in ( 0.8, 1.9 ) :
                    e = []
                    for i in range( 5 ) :
                        d = numpy.array( [yr[i], xr[i]] )
                        e += [d @ numpy.linalg.solve( C[i] + s * s * numpy.eye( 2 ), d ) * ( 1 if wgt is None else wgt[i] )]
                    ctx.near( tag + ':weightedResSq', z.weightedResSq( numpy.append( par, s ) ), e, 1e-10, 1e-10 )
                    ctx.outcome( e )
            for u in ( 0.1, 0.5, 0.8 ) :
                for k in range( np + 5 ) :
                    v = z.unit2Domain( u, k )
                    e = -3 + 7 * u if k < np else x[k-np] + B.GaussPrior( scale=0.5 ).unit2Domain( u )
                    ctx.near( tag + ':unit2Domain', v, e, 1e-10, 1e-10 )
                    ctx.near( tag + ':domain2Unit', z.domain2Unit( e, k ), u, 1e-9 )
    elif case['t'] == 'E' :
        mk = { 'poly' : lambda : B.PolynomialDynamicModel( 1 ), 'harm' : lambda : B.HarmonicDynamicModel( 1, period=1.0 ), 'rep' : lambda : B.RepeatingModel( 1, B.GaussModel(), minComp=1, maxComp=3 ) }[c]
        for w, a in itertools.product( ( None, W5 ), ( None, 0.4, ACC5 ) ) :
            m = mk()
            p = EvidenceProblem( model=m, xdata=X5, ydata=X5 ** 2, weights=w, accuracy=a )
            q = p.copy()
            for z in ( p, q ) :
                ctx.near( 'varyy', z.varyy, 0.0 if a is None else numpy.asarray( a ) ** 2, 1e-12 )
                ctx.near( 'sumweight', z.sumweight, 5 if w is None else numpy.sum( w ) )
                ctx.near( 'result', z.result( z.model.parameters ), z.model.result( X5, z.model.parameters ) )
            ctx.true( 'model-shared', q.model is not p.model )
            n = p.model.npars
            q.model.grow() if c != 'rep' else q.model.grow()
            ctx.eq( 'independent', p.model.npars, n )
            ctx.outcome( [n, q.model.npars] )
        try :
            EvidenceProblem( model=B.PolynomialModel( 1 ), xdata=X5, ydata=X5 )
            ctx.bad( 'static-accepted' )
        except ValueError : ctx.ev()
    else :
        P = c
        m = B.PolynomialModel( 0 )
        force( m, 'cyclic', P )
        r = P * numpy.linspace( -1.49, 1.49, 289 )
        p = B.ClassicProblem( model=m, xdata=numpy.zeros( 289 ), ydata=r )
        g = p.residuals( A( 0.0 ) )
        ctx.near( 'cyclize', g, wrap( r, P ), 1e-9, 1e-9 * P )
        ctx.outcome( g )
        ctx.outcome( r )
