""" C16 iterative fitters """
import numpy, math, itertools, warnings
import BayesicFitting as B
from scipy.optimize import minimize, least_squares
from BayesicFitting.source.ConvergenceError import ConvergenceError
from fit import A
import lik

LEVEL = 'model_checking'
RULE = ( 'every iterative fitter and method x model x start x keep x weights x accuracies x limits x cost function: the result is a stationary point of the documented cost '
         'within the limits, not worse than the start, kept parameters at their values, model/chisq/yfit in step; histories of fits on one object give what a fresh object gives' )
ASSUME = ['mildly non-linear models with 20 data points, starts in the basin of a minimum', 'non-smooth cost functions only with simplex methods']
BOUNDS = { 'quick' : 'all configurations, histories of depth 2', 'thorough' : 'histories of depth 3, more starts' }
BUDGET = { 'quick' : 150, 'thorough' : 900 }

X = numpy.linspace( -2.0, 2.2, 20 )
NOISE = 0.1 * numpy.sin( 17 * numpy.arange( 20 ) ** 2 )
W = { 'w0' : None, 'wa' : numpy.array( [1.,2.,0.5,1.5] * 5 ) }
AC = { 'a0' : None, 'as' : 0.4, 'aa' : numpy.array( [0.2,0.3,0.5,0.4,0.25] * 4 ) }

def gaus() : return B.GaussModel()
def gausbg() :
    m = B.GaussModel()
    m += B.PolynomialModel( 0 )
    return m
def expm() : return B.ExpModel()
def line() : return B.PolynomialModel( 1 )
MOD = {                 # maker, true parameters, starts
 'line'  : ( line, A( 0.5, -0.7 ), [A( 0.0, 0.0 ), A( 2.0, 1.0 )] ),
 'gauss' : ( gaus, A( 1.5, 0.3, 0.7 ), [A( 1.0, 0.1, 0.5 ), A( 2.0, 0.6, 1.0 )] ),
 'gbg'   : ( gausbg, A( 1.5, 0.3, 0.5, 0.4 ), [A( 1.0, 0.1, 0.6, 0.2 )] ),
 'exp'   : ( expm, A( 1.2, -0.5 ), [A( 1.0, -0.3 ), A( 0.6, -0.9 )] ),
}
def data( name, k=0 ) :
    mk, p, st = MOD[name]
    return mk().result( X, p * ( 1 + 0.1 * k ) ) + ( NOISE if k == 0 else numpy.roll( NOISE, 5 ) )

SC = 'NELDER-MEAD POWELL CG BFGS NEWTON-CG L-BFGS-B TNC COBYLA SLSQP DOGLEG TRUST-NCG'.split()
CLS = { 'NELDER-MEAD' : 'NelderMeadFitter', 'POWELL' : 'PowellFitter', 'CG' : 'ConjugateGradientFitter', 'BFGS' : 'BfgsFitter', 'NEWTON-CG' : 'NewtonCgFitter', 'L-BFGS-B' : 'LbfgsbFitter',
        'TNC' : 'TncFitter', 'COBYLA' : 'CobylaFitter', 'SLSQP' : 'SlsqpFitter', 'DOGLEG' : 'DoglegFitter', 'TRUST-NCG' : 'TrustNcgFitter' }
BOUNDED = ['LM', 'Curve', 'Amoeba', 'L-BFGS-B', 'TNC', 'SLSQP', 'auto']
CURVE = ['Curve', 'Curve-trf', 'Curve-dogbox', 'Curve-lm']
FITTERS = ['LM'] + CURVE + ['Amoeba', 'auto'] + SC + [s + '*' for s in ( 'CG','BFGS','L-BFGS-B','TNC','SLSQP' )]       # * no gradient

def mkfit( f, m, tight, **kw ) :
    """ fitter, keywords of fit """
    tol = 1e-10 if tight else None
    fk = {}
    if f == 'LM' :
        ft = B.LevenbergMarquardtFitter( X, m, verbose=0, **kw )
        if tight : fk['tolerance'] = 1e-13
    elif f.startswith( 'Curve' ) :
        ft = B.CurveFitter( X, m, method=f[6:] or None, **kw )
        if tight : fk.update( xtol=1e-12, ftol=1e-12, gtol=1e-12 )
    elif f == 'Amoeba' :
        ft = B.AmoebaFitter( X, m, **kw )
        if tight : fk.update( tolerance=1e-10, maxiter=8000 )
    elif f == 'auto' :
        ft = B.ScipyFitter( X, m, **kw )
        if tight : fk['tolerance'] = 1e-9
    else :
        ft = getattr( B, CLS[f.rstrip( '*' )] )( X, m, **dict( kw, **( { 'gradient' : False } if f[-1] == '*' else {} ) ) )
        if tight : fk['tolerance'] = 1e-8 if f[-1] != '*' else 1e-6
        if tight and f == 'COBYLA' : fk['maxiter'] = 20000
    return ft, fk

def start( f, m, p, fk ) :
    """ hand over starting parameters: keyword or model """
    if f.startswith( 'Curve' ) : fk['inipar'] = p
    else : fk['par0'] = p

def cost( name, y, w, a, errdis=None, scale=1.0, power=2.0 ) :
    m = MOD[name][0]()
    w = numpy.ones( 20 ) if w is None else w
    acc = numpy.ones( 20 ) * ( 1.0 if a is None else a )
    s = scale
    def f( p ) :
        r = ( y - m.result( X, p ) ) / acc
        if errdis is None : return numpy.sum( w * r * r )
        if errdis == 'gauss' : l = 0.5 * ( r / s ) ** 2 + 0.5 * math.log( 2 * math.pi ) + numpy.log( s * acc )
        elif errdis == 'laplace' : l = numpy.abs( r ) / s + numpy.log( 2 * s * acc )
        elif errdis == 'cauchy' : l = numpy.log( math.pi * s * acc * ( 1 + ( r / s ) ** 2 ) )
        elif errdis == 'exponential' : l = numpy.abs( r / s ) ** power + numpy.log( 2 * s * acc * math.gamma( 1 + 1 / power ) )
        elif errdis == 'poisson' :
            mo = m.result( X, p )
            if numpy.any( mo <= 0 ) : return numpy.inf
            l = mo - y * numpy.log( mo ) + numpy.array( [math.lgamma( v + 1 ) for v in y] )
        return numpy.sum( w * l )
    return f

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for f in FITTERS :
        for m in MOD : out += [{ 'key' : 'C.%s.%s' % ( f, m ), 't' : 'C', 'c' : [f, m], 'full' : full }]
    for f in BOUNDED + ['Curve-trf','Curve-dogbox','L-BFGS-B*','TNC*','SLSQP*'] :
        for m in MOD : out += [{ 'key' : 'B.%s.%s' % ( f, m ), 't' : 'B', 'c' : [f, m], 'full' : full }]
    for e in ( 'gauss','laplace','cauchy','exponential','poisson' ) :
        for f in ['Amoeba'] + SC :
            if e not in ( 'gauss', ) and f in ( 'NEWTON-CG','DOGLEG','TRUST-NCG' ) : continue
            if e == 'laplace' and f not in ( 'Amoeba','NELDER-MEAD' ) : continue
            for m in MOD :
                if e == 'poisson' and m != 'exp' : continue
                out += [{ 'key' : 'L.%s.%s.%s' % ( e, f, m ), 't' : 'L', 'c' : [e, f, m], 'full' : full }]
    for f in FITTERS :
        for m in MOD : out += [{ 'key' : 'G.%s.%s' % ( f, m ), 't' : 'G', 'c' : [f, m], 'full' : full }]
    for f in FITTERS : out += [{ 'key' : 'H.%s' % f, 't' : 'H', 'c' : f, 'full' : full }]
    out += [{ 'key' : 'M.maxiter', 't' : 'M', 'c' : 0 }, *[{ 'key' : 'A.anneal.%s.%g' % c, 't' : 'A', 'c' : list( c ) } for c in itertools.product( ( 'gauss','gbg' ), ( 0.5, 5.0, 20.0 ) )]]
    return out

def keepsof( np ) : return { 'k0' : None, 'k0v' : { 0 : 1.1 }, 'kl' : { np-1 : -0.4 if np < 3 else 0.6 } }

def sigma( f, p, fi ) :
    """ half curvature widths of the cost around p, per parameter """
    out = []
    for k in fi :
        h = 1e-4
        e = numpy.zeros( len( p ) ); e[k] = h
        c = ( f( p + e ) - 2 * f( p ) + f( p - e ) ) / h ** 2
        out += [1 / math.sqrt( max( c, 1e-6 ) )]
    return numpy.array( out )

def polish( f, p, fi, lo=None, hi=None, simplex=False ) :
    """ local optimum of f around p in the free parameters """
    def g( q ) :
        z = p.copy(); z[fi] = q
        return f( z )
    b = None if lo is None else [( lo[k], hi[k] ) for k in fi]
    best = p[fi]
    for rep in range( 3 ) :
        r = minimize( g, best, method='Nelder-Mead', bounds=b, options={ 'xatol':1e-8,'fatol':1e-11,'maxiter':3000 } )
        if r.fun < g( best ) : best = r.x
        if not simplex :
            r = minimize( g, best, method='L-BFGS-B', bounds=b, options={ 'ftol':1e-15,'gtol':1e-10 } )
            if r.fun < g( best ) : best = r.x
    z = p.copy(); z[fi] = best
    return z

def judge( ctx, tag, m, ft, par, f, p0, keep, tight, lo=None, hi=None, simplex=False, dev=None, opt=True ) :
    np = m.npchain
    keep = keep or {}
    fi = [k for k in range( np ) if k not in keep]
    s = p0.copy()
    for k in keep :
        s[k] = keep[k]
        ctx.true( tag + ':kept', par[k] == keep[k], 'parameter %d %g not %g' % ( k, par[k], keep[k] ) )
    ctx.near( tag + ':model.parameters', m.parameters, par, 0, 0 )
    fp = f( par )
    ctx.true( tag + ':worse-than-start', fp <= f( s ) * ( 1 + 1e-9 ) + 1e-9, '%g > %g' % ( fp, f( s ) ) )
    if lo is not None :
        ctx.true( tag + ':limits', numpy.all( par >= lo - 1e-9 ) and numpy.all( par <= hi + 1e-9 ), '%s not in %s %s' % ( par, lo, hi ) )
    if not opt : return
    full = getattr( ft, '__dict__', {} ).get( 'fulloutput' )
    if isinstance( full, dict ) and not full['success'] and getattr( ft, 'method', '' ) == 'CG' : return       # line search of scipy gave up, and told so
    z = polish( f, par, fi, lo, hi, simplex )
    exc = fp - f( z )
    if tight and getattr( ft, 'userGradient', True ) is False : exc /= 30            # numeric gradient
    # the excess in terms of the noise in the cost: a displacement of q sigma in the parameters costs 0.5 q^2
    unit = f( z ) / 20 if dev is None else dev
    lim = ( 1e-3 if tight else 0.3 ) * abs( unit ) + ( 1e-6 if tight else 2e-3 )
    ctx.true( tag + ':optimum', exc <= lim, 'cost %.8g at %s; %.8g at %s (limit %.3g)' % ( fp, par, f( z ), z, lim ) )
    ctx.outcome( numpy.round( par, 3 ) )

def run_case( case, ctx ) :
    warnings.simplefilter( 'ignore' )
    numpy.seterr( all='ignore' )
    c, full = case['c'], case.get( 'full' )
    globals()['do' + case['t']]( ctx, full, *( c if isinstance( c, list ) else [c] ) )

def doC( ctx, full, f, name ) :
    mk, pt, starts = MOD[name]
    np = len( pt )
    for tight in ( True, False ) :
        for s in starts :
            for w, a in itertools.product( W, AC ) :
                if not full and not tight and ( w == 'wa' or a == 'as' or s is not starts[0] ) : continue
                for kn, keep in keepsof( np ).items() :
                    if np == 2 and keep and f == 'Amoeba' : continue             # a simplex needs 2 parameters
                    for ctor in ( False, True ) if keep else ( False, ) :
                        m = mk()
                        kw = { 'keep' : keep } if ctor else {}
                        ft, fk = mkfit( f, m, tight, **kw )
                        if keep and not ctor : fk['keep'] = dict( keep )
                        p0 = s.copy()
                        start( f, m, p0, fk )
                        y = data( name )
                        par = ft.fit( y, weights=W[w], accuracy=AC[a], **fk )
                        ctx.ev(); ctx.trace()
                        tag = '%s.%s.%s.%s%s' % ( 'tight' if tight else 'default', w, a, kn, '.ctor' if ctor else '' )
                        fc = cost( name, data( name ), W[w], AC[a] )
                        judge( ctx, tag, m, ft, par, fc, s, keep, tight )
                        ctx.near( tag + ':chisq', ft.chisq, fc( par ), 1e-9 )
                        ctx.near( tag + ':yfit', ft.yfit, m.result( X, par ), 1e-12 )
                        ctx.near( tag + ':par0-changed', p0, s, 0, 0 )
                        ctx.near( tag + ':data-changed', y, data( name ), 0, 0 )
                        if keep and w == 'w0' and a == 'a0' and not ctor :      # only for that fit
                            fk.pop( 'keep' )
                            par = ft.fit( y, **fk )
                            judge( ctx, tag + ':keep-over', m, ft, par, cost( name, y, None, None ), s, None, tight )
                            if name != 'line' : start( f, m, s, fk )

def doG( ctx, full, f, name ) :
    """ accurate data: large chi-squared; inaccurate data: very small """
    mk, pt, starts = MOD[name]
    for acc in ( 0.003, 30.0 ) :
        for tight in ( True, False ) :
            for s in starts :
                for kn, keep in keepsof( len( pt ) ).items() :
                    if len( pt ) == 2 and keep and f == 'Amoeba' : continue
                    if acc < 1 and f.startswith( 'SLSQP' ) : continue    # scipy's first step may leave the basin
                    if acc > 1 and not tight : continue                  # converged by absolute tolerance
                    m = mk()
                    ft, fk = mkfit( f, m, tight )
                    if keep : fk['keep'] = dict( keep )
                    if acc > 1 and 'tolerance' in fk : fk['tolerance'] = 1e-13
                    start( f, m, s.copy(), fk )
                    y = data( name )
                    par = ft.fit( y, accuracy=acc, **fk )
                    ctx.ev(); ctx.trace()
                    judge( ctx, '%g.%s.%s' % ( acc, tight, kn ), m, ft, par, cost( name, y, None, acc ), s, keep, tight and acc < 1 )

def doB( ctx, full, f, name ) :
    """ limits: free optimum inside or cut by a limit """
    mk, pt, starts = MOD[name]
    np = len( pt )
    for how in ( 'kw','kw1','prior' ) :
        if how == 'prior' and f not in ( 'LM','Curve','Curve-trf','Curve-dogbox' ) : continue
        for w in W :
            y = data( name )
            fc = cost( name, y, W[w], None )
            free = polish( fc, pt.copy(), list( range( np ) ) )
            for cut in itertools.product( ( 0, -1, 1 ), repeat=np ) :
                if sum( c != 0 for c in cut ) > 2 : continue
                if how == 'kw1' and any( cut ) : continue
                cut = numpy.array( cut )
                d = 0.2 * numpy.abs( free )
                lo = numpy.where( cut == 1, free + d, free - 2.0 - d )
                hi = numpy.where( cut == -1, free - d, free + 2.0 + d )
                if name[0] == 'g' : lo[2] = max( lo[2], 0.2 )
                if how == 'kw1' : lo, hi = numpy.full( np, -4.0 ), numpy.full( np, 4.0 )
                s = numpy.where( cut == 1, lo + 0.3 * d, numpy.where( cut == -1, hi - 0.3 * d, free + 0.5 * d ) )
                for kn, keep in ( ( 'k0', None ), ( 'k1', { 0 : s[0] } ) ) :
                    if keep and np == 2 and f == 'Amoeba' : continue
                    m = mk()
                    if how == 'prior' : m.setLimits( lo, hi )
                    ft, fk = mkfit( f, m, True )
                    start( f, m, s.copy(), fk )
                    if how == 'kw' : fk['limits'] = [lo.copy(), hi.copy()]
                    if how == 'kw1' : fk['limits'] = [-4.0, 4.0]
                    if keep : fk['keep'] = keep
                    par = ft.fit( y, weights=W[w], **fk )
                    ctx.ev(); ctx.trace()
                    judge( ctx, '%s.%s.%s%s' % ( how, w, ''.join( '-0+'[c+1] for c in cut ), kn ), m, ft, par, fc, s, keep, True, lo, hi, opt=f != 'Amoeba' or not any( cut ) )

def doL( ctx, full, e, f, name ) :
    mk, pt, starts = MOD[name]
    np = len( pt )
    for s in starts :
        for w, a in itertools.product( W, AC ) :
            if e == 'poisson' and a != 'a0' : continue
            for kn, keep in keepsof( np ).items() :
                if np == 2 and keep and f == 'Amoeba' : continue
                for sc in ( None, 0.3 ) :
                    if not full and sc is None and keep : continue
                    y = data( name ) if e != 'poisson' else numpy.round( 2 + 3 * data( name ) ).clip( 0 )
                    m = mk()
                    kw = { 'errdis' : e, **( { 'scale' : sc } if sc else {} ) }
                    if e == 'exponential' : kw['power'] = 2.5
                    ft, fk = mkfit( f, m, True, **kw )
                    if keep : fk['keep'] = dict( keep )
                    start( f, m, s.copy(), fk )
                    par = ft.fit( y, weights=W[w], accuracy=AC[a], **fk )
                    ctx.ev(); ctx.trace()
                    one = numpy.ones( 20 )
                    wt, ac, ss = one if W[w] is None else W[w], one if AC[a] is None else AC[a] * one, sc or 1.0
                    if e == 'gauss' : wt, ac = wt / ac ** 2, one              # combined in a weight
                    elif a != 'a0' : ss = 1.0                                 # the accuracies are the scales
                    if e in ( 'cauchy','poisson' ) : wt = one                               # do not use weights
                    fc = cost( name, y, wt, ac, e, ss, 2.5 )
                    tag = '%s.%s.%s.%s' % ( w, a, kn, sc )
                    judge( ctx, tag, m, ft, par, fc, s, keep, True, simplex=e == 'laplace', dev=30.0 if e == 'laplace' else 1.0 )
                    ctx.near( tag + ':logLikelihood', ft.logLikelihood, -fc( par ), 1e-8, 1e-8 )
                    ctx.near( tag + ':yfit', ft.yfit, m.result( X, par ), 1e-12 )
                    if 'chisq' in ft.__dict__ or f == 'Amoeba' : ctx.near( tag + ':chisq', ft.chisq, cost( name, y, W[w], AC[a] )( par ), 1e-9 )

def doH( ctx, full, f ) :
    """ histories on one object """
    name = 'gauss'
    mk, pt, starts = MOD[name]
    np = 3
    ops = [( iy, w, a, k ) for iy in ( 0, 1 ) for w in W for a in ( ( 'a0','aa' ) if full or f in ( 'LM','Curve','BFGS','L-BFGS-B','Amoeba' ) else ( 'aa', ) ) for k in ( 'k0','kl' )]
    if f == 'COBYLA' and not full : ops = ops[::2]
    K = keepsof( np )
    def call( ft, m, fk, op ) :
        iy, w, a, k = op
        kw = dict( fk )
        if K[k] : kw['keep'] = dict( K[k] )
        start( f, m, starts[0].copy(), kw )
        par = ft.fit( data( name, iy ), weights=W[w], accuracy=AC[a], **kw )
        return numpy.append( par, [ft.chisq, ft.scale] )
    fresh = {}
    for op in ops :
        m = mk()
        ft, fk = mkfit( f, m, False )
        fresh[op] = call( ft, m, fk, op )
    for ck in ( 0, 1 ) :
        for hist in itertools.product( ops, repeat=3 if full else 2 ) :
            m = mk()
            ft, fk = mkfit( f, m, False, **( { 'keep' : K['k0v'] } if ck else {} ) )
            if ck and hist[-1][3] == 'k0' : continue
            for op in hist :
                r = call( ft, m, fk, op )
                ctx.trans()
            ctx.ev(); ctx.trace()
            ctx.near( 'history:%s>%s' % ( hist[:-1], op ), r, fresh[op], 1e-9, 1e-9 )

def doM( ctx, full, c ) :
    """ too few iterations: a ConvergenceError, or a warning, never silence; model stays usable """
    for n in ( 1, 2, 3 ) :
        for f in ( 'LM','Amoeba' ) :
            m = gaus()
            m.parameters = A( 1.0, -1.0, 0.4 )
            ft, fk = mkfit( f, m, True )
            fk['maxiter'] = n
            ctx.ev(); ctx.trace()
            try :
                ft.fit( data( 'gauss' ), **fk )
                ctx.bad( 'no ConvergenceError:%s.%d' % ( f, n ) )
            except ConvergenceError : pass
            ctx.true( 'model broken:%s.%d' % ( f, n ), m.parameters.shape == ( 3, ) and numpy.all( numpy.isfinite( m.result( X, m.parameters ) ) ) )
    for f in SC :
        if f in ( 'TNC', ) : continue
        for n in ( 2, 5 ) :
            m = gaus()
            m.parameters = A( 1.0, -1.0, 0.4 )
            ft, fk = mkfit( f, m, True )
            fk['maxiter'] = n
            ft.fit( data( 'gauss' ), **fk )
            ctx.ev()
            ctx.true( 'maxiter ignored:%s.%d' % ( f, n ), ft.fulloutput.get( 'nit', 0 ) <= n + 1, 'nit %s' % ft.fulloutput.get( 'nit' ) )

def doA( ctx, full, *c ) :
    """ annealing amoeba: same seed, same result; another seed also an optimum """
    for name in ( c[0], ) :
        mk, pt, starts = MOD[name]
        for temp in ( c[1], ) :
            for seed in range( 3 ) :
                res = []
                for rep in ( 0, 1 ) :
                    m = mk()
                    ft, fk = mkfit( 'Amoeba', m, False )
                    try : res += [ft.fit( data( name ), par0=starts[0], temp=temp, seed=seed, steps=20, cooling=0.9, **fk )]
                    except ConvergenceError : res += [m.parameters.copy()]              # told so
                    ctx.ev(); ctx.trace()
                ctx.near( 'same seed', res[0], res[1], 0, 0 )
                if ft.iter > 0 : judge( ctx, 'anneal.%s.%g' % ( name, temp ), m, ft, res[1], cost( name, data( name ), None, None ), starts[0], None, False, opt=False )
