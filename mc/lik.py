"""
Likelihood reference : problems, parameter vectors and documented log likelihoods, used by C11, C12, C13
"""
import numpy, math, itertools
from scipy.special import gammaln
import BayesicFitting as B
from BayesicFitting.source.MultipleOutputProblem import MultipleOutputProblem

A = lambda *v : numpy.array( v, dtype=float )
X5 = A( -1.0, -0.5, 0.1, 0.8, 1.4 )
W5 = A( 1.0, 0.5, 0.0, 2.0, 3.0 )
ACC5 = A( 0.3, 0.7, 1.1, 0.2, 0.5 )

def force( o, name, v ) : object.__setattr__( o, name, v )

def line() : return B.PolynomialModel( 1 )
def comp() :
    m = B.GaussModel( fixed={1:0.2} )
    return m + B.PolynomialModel( 0 )
def cyc() :
    m = B.PolynomialModel( 1 )
    force( m, 'cyclic', 6.0 )
    return m
def npar0() :
    return B.ConstantModel( values=0.4 )
def logistic() : return B.LogisticModel( fixed={0:1.0} )
def soft() : return B.SoftMaxModel( ndim=2, ndout=3, offset=True )
def soft4() : return B.SoftMaxModel( ndim=2, ndout=4, offset=True )
def orbit() :
    m = B.StellarOrbitModel( spherical=True )
    force( m, 'cyclic', { 0 : 2.5, 1 : 2 * math.pi } )
    return m
def expo() : return B.ExpModel()

X2 = numpy.array( [[-1.2,0.4],[-0.3,-0.8],[0.25,0.15],[0.7,1.1],[1.3,-0.35]] )
SP = A( 0.3, -0.6, 0.8, 0.1, 0.5, -0.9, 0.2, -0.1, 0.4 )
OP = A( 0.3, 1.2, 2.3, 0.4, 0.9, 0.5, 0.2 )

# name : ( model, x, y, parameter vectors, ndout, cyclic )
MODEL = {
  'line'  : ( line, X5, A( 0.9, 0.5, 0.4, -0.3, 1.0 ), [A( 0.5, 0.4 ), A( 0.0, -1.0 ), A( -0.7, 0.2 )], 1, None ),
  'comp'  : ( comp, X5, A( 0.3, 0.5, 1.4, 0.9, 0.2 ), [A( 1.0, 0.6, 0.1 ), A( -0.5, 1.3, 0.7 )], 1, None ),
  'cyc'   : ( cyc, X5, A( 2.9, 0.2, -2.9, 2.2, -1.8 ), [A( -2.2, 0.4 ), A( 2.0, 0.7 ), A( 0.5, 0.4 )], 1, 6.0 ),
  'npar0' : ( npar0, X5, A( 0.3, 0.5, 1.4, 0.9, 0.2 ), [A()], 1, None ),
  'count' : ( expo, X5, A( 0, 3, 1, 2, 7 ), [A( 2.0, -0.3 ), A( 0.7, 0.9 ), A( -1.0, 0.3 ), A( 0.0, 0.3 )], 1, None ),
  'logi'  : ( logistic, X5, numpy.array( [0,1,1,0,1] ), [A( 0.3, 0.8 ), A( -0.9, 1.7 )], 1, None ),
  'soft'  : ( soft, X2, numpy.array( [[0.2,0.5,0.3],[0.4,0.4,0.2],[0.1,0.1,0.8],[0.9,0.1,0.0],[0.3,0.3,0.4]] ), [SP, -0.5 * SP], 3, None ),
  'cat'   : ( soft4, X2, numpy.array( [0,3,1,1,2] ), [numpy.append( SP, [0.7,-0.2,0.15] ), -0.5 * numpy.append( SP, [-0.4,0.6,0.9] )], 4, None ),
  'orbit' : ( orbit, A( 0.1, 0.6, 1.0, 1.7, 2.6 ), numpy.array( [[1.0,0.2],[1.3,3.0],[0.8,6.1],[1.1,1.2],[0.9,4.4]] ), [OP, OP + A( 0.1, 0, 0, 0.1, 0, 0.2, 0.1 )], 2, { 0 : 2.5, 1 : 2 * math.pi } ),
}

WGT = { 'none' : None, 'vec' : W5 }
ACC = { 'none' : None, 'sc' : 0.6, 'vec' : ACC5 }
ACC2 = { 'none' : None, 'sc' : 0.6, 'vec' : ACC5, 'mat' : 1 }

def makeproblem( name, w='none', a='none' ) :
    mk, x, y, pars, nd, cy = MODEL[name]
    acc = ACC[a] if a != 'mat' else None
    wgt = WGT.get( w )
    if nd > 1 and y.ndim == 2 :
        if a == 'mat' : acc = 0.3 + 0.2 * numpy.arange( y.size ).reshape( y.shape ) / y.size
        if w == 'mat' : wgt = 0.5 * numpy.arange( y.size ).reshape( y.shape )
        if isinstance( acc, numpy.ndarray ) : acc = acc.copy()
        return MultipleOutputProblem( model=mk(), xdata=x.copy(), ydata=y.copy(), weights=None if wgt is None else wgt.copy(), accuracy=acc ), wgt, acc
    if isinstance( acc, numpy.ndarray ) : acc = acc.copy()
    return B.ClassicProblem( model=mk(), xdata=x.copy(), ydata=y.copy(), weights=None if wgt is None else wgt.copy(), accuracy=acc ), wgt, acc

def wrap( r, P ) : return ( r + P / 2 ) % P - P / 2

def refresid( name, par ) :
    mk, x, y, pars, nd, cy = MODEL[name]
    r = y - mk().result( x, par )
    if isinstance( cy, float ) : r = wrap( r, cy )
    elif cy is not None :
        for k in cy : r[:,k] = wrap( r[:,k], cy[k] )
    return r

def flat( v, shape ) :
    """ weights/accuracy per flattened datum """
    if v is None or numpy.ndim( v ) == 0 : return v
    v = numpy.asarray( v, dtype=float )
    if len( shape ) == 2 and v.ndim == 1 : v = numpy.repeat( v[:,None], shape[1], axis=1 )
    return v.ravel()

def one( kind, r, hy, wgt, acc ) :
    """ log likelihood per datum of residuals ; r flat """
    w = 1.0 if wgt is None else wgt
    if kind == 'gauss' :
        s2 = hy[0] ** 2 + ( 0.0 if acc is None else acc ** 2 )
        return w * ( -0.5 * ( numpy.log( 2 * math.pi * s2 ) + r * r / s2 ) ) + 0 * r
    s = ( hy[0] if acc is None else acc ) if len( hy ) else None
    if kind == 'laplace' : return w * ( -numpy.log( 2 * s ) - numpy.abs( r ) / s )
    if kind == 'cauchy' : return numpy.log( s / ( math.pi * ( s * s + r * r ) ) )
    if kind == 'uniform' :
        l = numpy.where( numpy.abs( r ) < s, -numpy.log( 2 * s ), -math.inf )
        return l if wgt is None else numpy.where( wgt > 0, l * numpy.where( wgt > 0, wgt, 1 ), 0.0 )
    if kind == 'expon' :
        p = hy[1]
        return w * ( numpy.log( p / ( 2 * s ) ) - gammaln( 1 / p ) - numpy.abs( r / s ) ** p )
    raise KeyError( kind )

NH = { 'gauss' : 1, 'laplace' : 1, 'cauchy' : 1, 'uniform' : 1, 'expon' : 2, 'poisson' : 0, 'bernoulli' : 0 }
MK = { 'gauss' : B.GaussErrorDistribution, 'laplace' : B.LaplaceErrorDistribution, 'cauchy' : B.CauchyErrorDistribution, 'uniform' : B.UniformErrorDistribution,
       'expon' : B.ExponentialErrorDistribution, 'poisson' : B.PoissonErrorDistribution, 'bernoulli' : B.BernoulliErrorDistribution }

def makedist( d ) :
    if '+' in d :
        a, b = d.split( '+' )
        return B.MixedErrorDistribution( makedist( a ), makedist( b ) )
    return MK[d]()

def nhyp( d ) : return NH[d] if '+' not in d else sum( NH[k] for k in d.split( '+' ) ) + 1

HYP = { 'gauss' : [[0.8],[1.7]], 'laplace' : [[0.5],[1.3]], 'cauchy' : [[0.7],[2.1]], 'uniform' : [[1.9],[7.0],[0.3]], 'expon' : [[0.9,2.0],[1.4,1.3],[0.6,3.1],[1.1,1.0]],
        'poisson' : [[]], 'bernoulli' : [[]] }

def hyps( d ) :
    if '+' not in d : return HYP[d]
    a, b = d.split( '+' )
    fr = [0.3,0.8,0.0,1.0]
    out = []
    for i, ( h1, h2 ) in enumerate( itertools.product( HYP[a], HYP[b] ) ) :
        out += [list( h1 ) + list( h2 ) + [f] for f in ( fr if i == 0 else fr[:1] )]
    return out

def refdata( name, d, par, hy, wgt, acc ) :
    """ log likelihood per ( flattened ) datum """
    mk, x, y, pars, nd, cy = MODEL[name]
    if '+' in d :
        a, b = d.split( '+' )
        f = hy[-1]
        l1 = refdata( name, a, par, hy[:NH[a]], wgt, acc )
        l2 = refdata( name, b, par, hy[NH[a]:NH[a]+NH[b]], wgt, acc )
        if f <= 0 : return l2
        if f >= 1 : return l1
        return numpy.logaddexp( l1 + math.log( f ), l2 + math.log( 1 - f ) )
    if d == 'poisson' :
        m = mk().result( x, par )
        out = []
        for k, mm in zip( y, m ) :
            out += [-math.inf if mm <= 0 else k * math.log( mm ) - mm - math.lgamma( k + 1 )]
        return numpy.array( out )
    if d == 'bernoulli' :
        m = mk().result( x, par )
        if nd == 1 : return numpy.log( numpy.where( y == 0, m, 1 - m ) )
        return numpy.log( numpy.array( [m[i,int( k )] for i, k in enumerate( y )] ) )
    r = refresid( name, par )
    return one( d, r.ravel(), hy, flat( wgt, r.shape ), flat( acc, r.shape ) )

# ---- errors in x and y ----------------------------------------------------------
XYACC = {
  'none' : ( {}, None ), '0d' : ( { 'accuracy' : 0.4 }, ( 0.4, 0.4, 0.0 ) ), '2' : ( { 'accuracy' : [0.3,0.6] }, ( 0.3, 0.6, 0.0 ) ),
  '3' : ( { 'accuracy' : [0.3,0.6,0.5] }, ( 0.3, 0.6, 0.5 ) ),
  'n2' : ( { 'accuracy' : numpy.array( [ACC5, 1.3 * ACC5[::-1]] ).T }, ( ACC5, 1.3 * ACC5[::-1], 0.0 ) ),
  'n3' : ( { 'accuracy' : numpy.array( [ACC5, 1.3 * ACC5[::-1], 0.1 * numpy.arange( 5 ) - 0.2] ).T }, ( ACC5, 1.3 * ACC5[::-1], 0.1 * numpy.arange( 5 ) - 0.2 ) ),
  'c22' : ( { 'covar' : [[0.09,0.05],[0.05,0.36]] }, ( 0.3, 0.6, 0.05 / 0.18 ) ),
  'cn22' : ( { 'covar' : numpy.array( [[[0.09 + k, 0.05 * k],[0.05 * k, 0.36]] for k in range( 5 )] ) }, None ),
}

def xycov( a ) :
    """ list of 5 covariance matrices ( order y,x ) """
    kw, v = XYACC[a]
    if a == 'none' : return [numpy.zeros( ( 2, 2 ) )] * 5
    if a == 'c22' : return [numpy.array( kw['covar'] )] * 5
    if a == 'cn22' : return list( kw['covar'] )
    sy, sx, r = [numpy.broadcast_to( numpy.asarray( k, dtype=float ), ( 5, ) ) for k in v]
    return [numpy.array( [[sy[i]**2, r[i] * sy[i] * sx[i]],[r[i] * sy[i] * sx[i], sx[i]**2]] ) for i in range( 5 )]

def xyproblem( a, w='none', name='line' ) :
    mk, x, y, pars, nd, cy = MODEL[name]
    kw = { k : ( v.copy() if isinstance( v, numpy.ndarray ) else v ) for k, v in XYACC[a][0].items() }
    return B.ErrorsInXandYProblem( model=mk(), xdata=x.copy(), ydata=y.copy(), weights=WGT[w], prior=B.GaussPrior( scale=0.5 ), **kw )

def xypars( name='line' ) :
    mk, x, y, pars, nd, cy = MODEL[name]
    return [numpy.concatenate( ( p, x + d ) ) for p, d in zip( pars, ( A( 0.1, -0.2, 0.3, 0.05, -0.4 ), numpy.zeros( 5 ), A( -0.6, 0.2, 0.1, 0.15, 0.3 ) ) )]

def xyref( name, a, par, s, wgt ) :
    mk, x, y, pars, nd, cy = MODEL[name]
    m = mk()
    np = m.npars
    p, u = par[:np], par[np:]
    f = m.result( u, p )
    out = []
    for i, C in enumerate( xycov( a ) ) :
        C = C + s * s * numpy.eye( 2 )
        d = numpy.array( [y[i] - f[i], x[i] - u[i]] )
        l = -0.5 * d @ numpy.linalg.solve( C, d ) - 0.5 * math.log( numpy.linalg.det( C ) ) - math.log( 2 * math.pi )
        out += [l * ( 1.0 if wgt is None else wgt[i] )]
    return numpy.array( out )

def ngrad( f, p ) :
    """ Richardson numeric gradient """
    p = numpy.asarray( p, dtype=float )
    out = []
    for k in range( len( p ) ) :
        def cd( h ) :
            a, b = p.copy(), p.copy()
            a[k] += h; b[k] -= h
            return ( f( a ) - f( b ) ) / ( 2 * h )
        best = None
        for h in ( 1e-2, 1e-3, 1e-4, 1e-5 ) :
            d1, d2, d4 = cd( h ), cd( h / 2 ), cd( h / 4 )
            r1, r2 = ( 4 * d2 - d1 ) / 3, ( 4 * d4 - d2 ) / 3
            err = abs( r2 - r1 )
            if numpy.isfinite( err ) and ( best is None or err < best[0] ) : best = ( err, ( 16 * r2 - r1 ) / 15 )
        out += [math.nan if best is None or best[0] > 1e-5 * max( 1.0, abs( best[1] ) ) else best[1]]
    return numpy.array( out )

def classic_combos( mixed=True ) :
    """ ( dist, problem, weights, accuracy ) """
    out = []
    base = ['gauss','laplace','cauchy','uniform','expon']
    mix = ['gauss+gauss','gauss+laplace','gauss+uniform','laplace+cauchy','expon+gauss','gauss+expon','expon+expon','cauchy+uniform'] if mixed else []
    for d in base + mix :
        ww = d.split( '+' )
        acceptw = all( k != 'cauchy' for k in ww )
        for pr in ( 'line','comp','cyc','npar0','soft','orbit' ) :
            for w in ( ['none','vec'] if acceptw else ['none'] ) + ( ['mat'] if acceptw and pr in ( 'soft','orbit' ) else [] ) :
                for a in ['none','sc','vec'] + ( ['mat'] if pr in ( 'soft','orbit' ) else [] ) :
                    if '+' in d and pr in ( 'npar0','comp' ) and a != 'none' : continue
                    out += [( d, pr, w, a )]
    for a in ( 'none', ) :
        out += [( 'poisson', 'count', 'none', a ), ( 'bernoulli', 'logi', 'none', a ), ( 'bernoulli', 'cat', 'none', a ),
                ( 'poisson+gauss', 'count', 'none', a ), ( 'gauss+poisson', 'count', 'none', a )]
    return out
