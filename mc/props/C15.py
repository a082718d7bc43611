""" C15 statistics after a fit """
import numpy, math, itertools, warnings
import BayesicFitting as B
from fit import *
from lik import ngrad

LEVEL = 'exploration'
RULE = ( 'every fitter x model x keep x weights x accuracy x fixed scale; after the fit, and again after another fit with the same object, in several orders of asking: '
         'scale, hessian, covariance, standard deviations, evidence (exact Gaussian integral), Occam factor, log likelihood equal direct formulas at the fitted parameters' )
ASSUME = ['9 data points (20 for non-linear models), uniform priors', 'the scale integral of the evidence is a Laplace approximation: compared with the exact integral to within 0.4/dof']
BOUNDS = { 'quick' : 'all configurations, pairs of fits', 'thorough' : 'idem, all pairs, all orders' }
BUDGET = { 'quick' : 120, 'thorough' : 600 }

LIN = { 'Fitter' : B.Fitter, 'QRFitter' : B.QRFitter, 'LM' : B.LevenbergMarquardtFitter, 'Curve' : B.CurveFitter }
XN = numpy.linspace( -2.0, 2.2, 20 )
YN = 0.4 + 1.5 * numpy.exp( -0.5 * ( ( XN - 0.3 ) / 0.7 ) ** 2 ) + 0.05 * numpy.sin( 17 * numpy.arange( 20 ) ** 2 )
WN = 1.0 + ( numpy.arange( 20 ) % 3 ) * 0.5
AN = 0.1 + 0.02 * ( numpy.arange( 20 ) % 4 )

def gaus() : return B.GaussModel()
def gausbg() :
    m = B.GaussModel()
    m += B.PolynomialModel( 0 )
    return m
def expo() : return B.ExpModel()
NLM = { 'gauss' : ( gaus, A( 1.0, 0.1, 0.5 ) ), 'gaussbg' : ( gausbg, A( 1.0, 0.1, 0.5, 0.1 ) ) }
NLF = { 'LM' : ( B.LevenbergMarquardtFitter, {} ), 'Curve' : ( B.CurveFitter, {} ), 'Amoeba' : ( B.AmoebaFitter, {} ), 'BFGS' : ( B.ScipyFitter, { 'method':'BFGS' } ),
        'LBFGSB' : ( B.ScipyFitter, { 'method':'L-BFGS-B' } ), 'NM' : ( B.ScipyFitter, { 'method':'NELDER-MEAD' } ), 'auto' : ( B.ScipyFitter, {} ) }

ORDERS = [( 0, 1, 2, 3 ), ( 3, 2, 1, 0 ), ( 1, 3, 0, 2 ), ( 2, 0, 3, 1 )]

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for f in LIN :
        for pr in PROB :
            if PROB[pr][3] and f not in ( 'Fitter','LM' ) : continue
            np = PROB[pr][0]().npchain
            if np == 0 and f not in ( 'Fitter','QRFitter' ) : continue
            for ck in keeps( np ) :
                if ck == 'kz' : continue
                for fs in ( None, 0.8 ) if f != 'QRFitter' else ( None, ) :
                    if fs is not None and ck == 'kl' and not full : continue
                    out += [{ 'key' : 'S.%s.%s.c%s.%s' % ( f, pr, ck, fs ), 't' : 'S', 'c' : [f, pr, ck, fs], 'full' : full }]
    for f in NLF :
        for m in NLM :
            out += [{ 'key' : 'N.%s.%s' % ( f, m ), 't' : 'N', 'c' : [f, m], 'full' : full }]
    out += [{ 'key' : 'E.%s' % f, 't' : 'E', 'c' : f } for f in LIN]
    out += [{ 'key' : 'T.%s.%s' % ( f, m ), 't' : 'T', 'c' : [f, m] } for f in list( LIN ) + [f for f in NLF if f not in LIN] for m in ( 'line','plane' )]
    return out

def exactZ( r, prirange, fixed, noise=None ) :
    """ log of the integral of likelihood * uniform prior over all parameters, over the scale with a Jeffreys prior """
    k, W, chi = len( r['fi'] ), r['sumw'], r['chi']
    ld = 0.0 if k == 0 else numpy.linalg.slogdet( r['H'] )[1]
    z = -r['slacc'] - 0.5 * ld - numpy.sum( numpy.log( prirange ) )
    l2 = math.log( 2 * math.pi )
    if noise is None :
        s2 = 1.0 if fixed is None else fixed * fixed
        return z + 0.5 * ( k - W ) * ( l2 + math.log( s2 ) ) - 0.5 * chi / s2
    dof = W - k
    return z + 0.5 * ( k - W ) * l2 + math.log( 0.5 ) + math.lgamma( dof / 2 ) - dof / 2 * math.log( chi / 2 ) - math.log( math.log( noise[1] / noise[0] ) )

def observe( ctx, tag, ft, m, r, np, order, nrm, fixed, y, iterative=False, rt=1e-7 ) :
    k = len( r['fi'] )
    dof = r['sumw'] - k
    scale = math.sqrt( r['chi'] / dof )
    H = r['H']
    ctx.near( tag + ':sumwgt', ft.sumwgt, r['sumw'], 1e-12 )
    ctx.eq( tag + ':npfit', ft.npfit, k )
    ctx.near( tag + ':chisq', ft.chisq, r['chi'], rt )
    ctx.near( tag + ':scale', ft.scale, scale, rt )
    ctx.near( tag + ':getScale', ft.getScale(), scale, rt )
    ctx.near( tag + ':stdevScale', ft.stdevScale, scale / math.sqrt( 2 * r['sumw'] ), rt )
    cov = numpy.linalg.inv( H ) * scale ** 2 if k else None
    def o0() :
        if k and np > 0 : ctx.near( tag + ':hessian', ft.hessian, H, rt, rt )
    def o1() :
        if k and np > 0 : ctx.near( tag + ':covariance', ft.covariance, cov, rt * 10 )
    def o2() :
        if not k or np == 0 : return
        sd = numpy.zeros( np )
        sd[r['fi']] = numpy.sqrt( numpy.diag( cov ) )
        ctx.near( tag + ':stdevs', ft.stdevs, sd, rt * 10 )
        ctx.near( tag + ':standardDeviations', ft.standardDeviations, sd, rt * 10 )
        ctx.near( tag + ':model.stdevs', m.stdevs, sd, rt * 10 )
    def o3() :
        if len( nrm ) : return
        rng = numpy.arange( np ) + 8.0
        if np > 0 : m.setLimits( -0.5 * rng, 0.5 * rng )
        at = max( 1e-6, 30 * rt )
        pr = rng[r['fi']]
        ez = exactZ( r, pr, fixed )
        ctx.near( tag + ':logZ', ft.getLogZ(), ez, 0, at )
        ctx.near( tag + ':logLikelihood', ft.logLikelihood, exactZ( dict( r, fi=[] ), [], fixed ), 0, at )
        ctx.near( tag + ':logOccam', ft.logOccam, ez - ft.logLikelihood, 0, at )
        ctx.near( tag + ':evidence', ft.evidence, ez / math.log( 10 ), 0, at )
        ctx.near( tag + ':attr-logZ', ft.logZ, ez, 0, at )
        ctx.near( tag + ':logZ-scalar', ft.getLogZ( limits=[-3.0,4.5] ), exactZ( r, numpy.full( k, 7.5 ), fixed ), 0, at )
        ctx.near( tag + ':logZ-arrays', ft.getLogZ( limits=[-numpy.arange( 1.0, k + 1 ), numpy.ones( k )] ) if k else ez, exactZ( r, numpy.arange( k ) + 2.0, fixed ) if k else ez, 0, at )
        nl = [0.02, 30.0]
        ctx.near( tag + ':logZ-noise', ft.getLogZ( noiseLimits=nl ), exactZ( r, pr, fixed, nl ), 0, 0.4 / dof + at )
        ctx.near( tag + ':evidence-noise', ft.getEvidence( limits=[-3.0,4.5], noiseLimits=nl ), exactZ( r, numpy.full( k, 7.5 ), fixed, nl ) / math.log( 10 ), 0, 0.4 / dof + at )
        ctx.near( tag + ':evidence-limits', ft.getEvidence( limits=[-3.0,4.5] ), exactZ( r, numpy.full( k, 7.5 ), fixed ) / math.log( 10 ), 0, at )
    obs = [o0, o1, o2, o3]
    for i in order : obs[i]()
    if k and np > 0 :
        w2 = numpy.arange( len( y ) ) % 3 + 1.0
        D = r['D']
        wx = numpy.append( w2, [n[2] for n in nrm] )
        ctx.near( tag + ':design', ft.getDesign(), D, rt, rt )
        ctx.near( tag + ':design-attr', ft.design, D, rt, rt )
        for ix in ( None, numpy.array( [0] ), numpy.array( r['fi'] ) ) :
            Di = D if ix is None else D[:,ix]
            ctx.near( tag + ':design-index', ft.getDesign( index=ix ), Di, rt, rt )
            if not len( nrm ) : ctx.near( tag + ':vector', ft.getVector( y, index=ix ), Di.T @ y, rt, rt )
            ctx.near( tag + ':getHessian', ft.getHessian( weights=w2.copy(), index=ix ), ( Di * wx[:,None] ).T @ Di, rt, rt )
            ctx.near( tag + ':getInverseHessian', ft.getInverseHessian( weights=w2.copy(), index=ix ), numpy.linalg.inv( ( Di * wx[:,None] ).T @ Di ), rt * 100, rt * 10 )
        ctx.near( tag + ':covariance-again', ft.covariance, cov, rt * 10 )
    ctx.near( tag + ':makeVariance', ft.makeVariance(), scale ** 2, rt * 10 )
    ctx.near( tag + ':makeVariance-s', ft.makeVariance( scale=1.5 ), 2.25, 1e-12 )
    ctx.outcome( ( scale, k ) )

def run_case( case, ctx ) :
    if case['t'] == 'T' : return containers( ctx, *case['c'] )
    warnings.simplefilter( 'ignore' )
    c = case['c']
    if case['t'] == 'S' : linear( ctx, case['full'], *c )
    elif case['t'] == 'N' : nonlin( ctx, case['full'], *c )
    else : errors( ctx, c )

CONT = { 'ints' : lambda v : numpy.array( v, dtype=int ), 'list' : lambda v : numpy.asarray( v, dtype=int ).tolist(),
         'floats' : lambda v : numpy.asarray( v, dtype=float ).tolist(), 'tuple' : lambda v : tuple( numpy.asarray( v, dtype=int ).tolist() ),
         'strided' : lambda v : numpy.repeat( numpy.array( v, dtype=float ), 2, axis=0 )[::2] }

def containers( ctx, f, mn ) :
    """ the same numbers in another container give the same fit """
    if mn == 'line' : x, mk, np = numpy.array( [0,1,2,3,4,5,6] ), lambda : B.PolynomialModel( 1 ), 2
    else : x, mk, np = numpy.array( [[0,1],[1,0],[2,2],[3,5],[4,3],[5,1],[6,4]] ), lambda : B.PolySurfaceModel( 1 ), 3
    y = numpy.array( [1,3,4,9,9,12,11] )
    w = numpy.array( [1,2,1,1,3,1,2] )
    a = numpy.array( [1,1,2,1,1,2,1] )
    cls, kw = ( LIN[f], {} ) if f in LIN else NLF[f]
    def fit( cx, cy, uw, ua ) :
        m = mk()
        ft = cls( cx( x ), m, **kw )
        k = {}
        if uw : k['weights'] = cy( w )
        if ua : k['accuracy'] = cy( a )
        if f == 'Amoeba' : k['seed'] = 3
        p = ft.fit( cy( y ), **k )
        ctx.trans()
        return numpy.concatenate( ( p, [ft.chisq, ft.scale, ft.sumwgt], ft.stdevs, numpy.ravel( ft.getEvidence( limits=[-30,30], noiseLimits=[0.01,10] ) ), m.result( cx( x ), p ) ) )
    fl = lambda v : numpy.array( v, dtype=float )
    for uw in ( 0, 1 ) :
        for ua in ( 0, 1 ) :
            ref = fit( fl, fl, uw, ua )
            for n1, c1 in CONT.items() :
                ctx.near( 'x in container', fit( c1, fl, uw, ua ), ref, 1e-7, 1e-9, '%s %s x:%s w%d a%d' % ( f, mn, n1, uw, ua ) )
                ctx.near( 'data in container', fit( fl, c1, uw, ua ), ref, 1e-7, 1e-9, '%s %s y,w,acc:%s w%d a%d' % ( f, mn, n1, uw, ua ) )
                ctx.near( 'all in container', fit( c1, c1, uw, ua ), ref, 1e-7, 1e-9, '%s %s x,y,w,acc:%s w%d a%d' % ( f, mn, n1, uw, ua ) )
            ctx.outcome( numpy.round( ref, 6 ) )

def linear( ctx, full, f, pr, ck, fixed ) :
    ref = Ref( pr )
    np = ref.np
    conf = [( iy, w, a, k ) for iy in ( 0, 1 ) for w in ( 'w0','wa' ) for a in AS for k in keeps( np )]
    if not full : conf = [q for i, q in enumerate( conf ) if q[0] == 0 or i % 3 == 0]
    seconds = conf
    io = 0
    for q1 in [None] + conf :
        for q2 in conf if q1 is None or full else [q for i, q in enumerate( conf ) if q[1] != q1[1] and q[2] != q1[2]][::3] :
            mk, x, mx, mp = PROB[pr]
            for nn in ( 0, 1 ) if q1 is None and np > 0 else ( 0, ) :
                m = mk()
                kp = keeps( np )[ck]
                kw = {} if fixed is None else { 'fixedScale' : fixed }
                if mp : kw['map'] = True
                ft = LIN[f]( x, m, keep=kp, **kw )
                if f == 'LM' :
                    ft.tolerance = 1e-13
                    ft.verbose = 0
                nrm = [norms( np, 0 )] if nn else []
                if nn : ft.normalize( *nrm[0] )
                sh = lambda v : v.reshape( 3, 3 ) if mp and hasattr( v, 'reshape' ) else v
                r = None
                for q in ( q1, q2 ) :
                    if q is None : continue
                    iy, w, a, k = q
                    keep = keeps( np )[k]
                    r = ref.solve( YS[iy], WS[w], AS[a], kp if keep is None else keep, nrm )
                    if f in ( 'LM','Curve' ) and not len( r['fi'] ) : continue
                    ft.fit( sh( YS[iy] ), weights=sh( WS[w] ), accuracy=sh( AS[a] ), **( {} if keep is None else { 'keep' : keep } ) )
                    ctx.ev()
                    r['D'] = ref.design( nrm )
                    tag = '%s%s' % ( '.'.join( ( w, a, k ) ), '' if q1 is None else '|after' )
                    rt = 1e-6 if f in ( 'Fitter','QRFitter' ) else 3e-5
                    if q is q1 : observe( ctx, 'first.' + tag, ft, m, r, np, ( 1, ) if io % 2 else ( 3, 0 ), nrm, fixed, YS[iy], rt=rt )
                    else : observe( ctx, tag, ft, m, r, np, ORDERS[io % 4], nrm, fixed, YS[iy], rt=rt )
                io += 1
                ctx.trace()
    if np > 0 :
        m = PROB[pr][0]()
        ft = LIN[f]( PROB[pr][1], m, map=PROB[pr][3] )
        if f == 'LM' : ft.tolerance, ft.verbose = 1e-13, 0
        ft.setMinimumScale( 0.7 )
        ft.fit( YS[0].reshape( 3, 3 ) if PROB[pr][3] else YS[0] )
        r = ref.solve( YS[0], None, None, None )
        s2 = r['chi'] / ( 9 - np ) + 0.49
        ctx.near( 'minimumScale:cov', ft.covariance, numpy.linalg.inv( r['H'] ) * s2, 1e-4 )
        ctx.near( 'minimumScale:var', ft.makeVariance(), s2, 1e-4 )

def nonlin( ctx, full, f, mn ) :
    mk, p0 = NLM[mn]
    np = len( p0 )
    io = 0
    K = { 'k0' : None, 'k1' : { 1 : 0.3 }, 'k2' : { 2 : 0.7 } }
    W = { 'w0' : None, 'wa' : WN }
    AC = { 'a0' : None, 'as' : 0.12, 'aa' : AN }
    for fixed in ( None, 0.8 ) :
        for ck in ( 'k0','k1' ) :
            for w, a, k in itertools.product( W, AC, K ) :
                m = mk()
                m.parameters = p0.copy()
                F, kw = NLF[f]
                kw = dict( kw )
                if fixed is not None : kw['fixedScale'] = fixed
                if f in ( 'LM','NM','BFGS','LBFGSB','auto' ) : kw['tolerance'] = 1e-12 if f == 'LM' else 1e-8
                ft = F( XN, m, keep=K[ck], **kw )
                ft.verbose = 0
                for rep in ( 0, 1 ) :
                    w_, a_, k_ = ( w, a, k ) if rep else ( 'wa' if w == 'w0' else 'w0', 'aa' if a == 'as' else 'as', 'k0' )
                    fw = { 'weights' : W[w_], 'accuracy' : AC[a_] }
                    if K[k_] is not None : fw['keep'] = K[k_]
                    if f == 'Amoeba' : fw.update( tolerance=1e-9, maxiter=5000 )
                    ft.fit( YN, **fw )
                    ctx.ev()
                    keep = K[k_] or K[ck] or {}
                    fi = [i for i in range( np ) if i not in keep]
                    par = m.parameters.copy()
                    yf = m.result( XN, par )
                    wt = numpy.ones( 20 ) if W[w_] is None else W[w_]
                    ac = numpy.ones( 20 ) if AC[a_] is None else AC[a_] * numpy.ones( 20 )
                    fwgt = wt / ac ** 2
                    D = numpy.array( [( m.result( XN, par + e * 1e-6 ) - m.result( XN, par - e * 1e-6 ) ) / 2e-6 for e in numpy.eye( np )] ).T
                    Di = D[:,fi]
                    r = dict( fi=fi, sumw=wt.sum(), slacc=numpy.sum( wt * numpy.log( ac ) ), chi=numpy.sum( fwgt * ( YN - yf ) ** 2 ), H=( Di * fwgt[:,None] ).T @ Di, D=D )
                    observe( ctx, '%s.%s.%s.%s.%s%d' % ( fixed, ck, w_, a_, k_, rep ), ft, m, r, np, ORDERS[io % 4] if rep else ( 3, 1 ), [], fixed, YN, rt=1e-5 )
                    io += 1
                ctx.trace()

def errors( ctx, f ) :
    """ no limits: no evidence; no degrees of freedom: no scale """
    F = LIN[f]
    kw = { 'verbose' : 0 } if f == 'LM' else {}
    ft = F( X1, poly( 1 ), **kw )
    for nm in ( 'chisq','logOccam','logLikelihood' ) :
        try :
            getattr( ft, nm )
            ctx.bad( 'available before fit:' + nm )
        except AttributeError : pass
    ft.fit( YS[0] )
    def refused( what, fun, exc ) :
        ctx.ev()
        try :
            fun()
            ctx.bad( 'not refused:' + what )
        except exc : pass
    refused( 'nolimits', ft.getLogZ, ValueError )
    refused( 'nolimits-ev', ft.getEvidence, ValueError )
    refused( 'nolimits-attr', lambda : ft.evidence, ValueError )
    m = comp()
    m._head.priors = None
    m.setPrior( 0, prior=B.UniformPrior( limits=[-9,9] ) )
    m.setPrior( 1, prior=B.UniformPrior( limits=[-9,9] ) )
    ft = F( X1, m, **kw )
    ft.fit( YS[0] )
    refused( 'limits only on the first model', ft.getLogZ, ValueError )
    for tot in ( 1.0, 2.0, 1.9, 0.5 ) :
        m = poly( 1 )
        m.setLimits( -9, 9 )
        ft = F( X1, m, **kw )
        ft.fit( YS[0], weights=numpy.full( 9, tot / 9 ) )
        refused( 'scale.%g' % tot, ft.getScale, RuntimeError )
        refused( 'covariance.%g' % tot, ft.getCovarianceMatrix, RuntimeError )
        refused( 'logZ.%g' % tot, ft.getLogZ, RuntimeError )
        # with one parameter kept there are dof's left
        ft.fit( YS[0], weights=numpy.full( 9, tot / 9 ), keep={0:0.4} )
        if tot > 1 : ctx.near( 'dof.%g' % tot, ft.getScale(), math.sqrt( ft.chisq / ( tot - 1 ) ), 1e-9 )
        else : refused( 'keep.%g' % tot, ft.getScale, RuntimeError )
    ctx.trace()
