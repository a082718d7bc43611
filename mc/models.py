"""
Catalogue of the simple models, with the documented function as a reference.

Each entry : name, make(**kw) , ref(x,p), pars (list of parameter lists), x (evaluation points, not on
kinks of the function), flags.
The references are written from the documentation (formula, class doc), in plain loops / numpy.
"""
import math, numpy
import BayesicFitting as B
from BayesicFitting import formatter  # noqa: F401  (package really loads)

pi = math.pi
TP = 2 * pi
A = lambda *v : numpy.array( v, dtype=float )

X1 = A( -1.7, -0.6, -0.05, 0.3, 0.9, 1.45 )
XP = A( 0.2, 0.45, 0.8, 1.3, 1.9, 2.6 )
X2 = numpy.array( [[-1.2,0.4],[-0.3,-0.8],[0.25,0.15],[0.7,1.1],[1.3,-0.35]] )

def cheb( k, x ) :
    a, b = numpy.ones_like( x ), x
    if k == 0 : return a
    for i in range( k - 1 ) : a, b = b, 2 * x * b - a
    return b

def r_pade( num, den ) :
    def f( x, p ) :
        n = sum( p[k] * x**k for k in range( num + 1 ) )
        d = sum( p[num+1+k] * x**k for k in range( den + 1 ) )
        return n / d
    return f

def wofz( z ) :
    from scipy.special import wofz as w
    return w( z )

def r_voigt( x, p ) :
    g = lambda u : numpy.real( wofz( ( u + 1j * p[3] ) / ( p[2] * math.sqrt( 2 ) ) ) )
    return p[0] * g( x - p[1] ) / g( 0.0 )

def r_polysurf( deg ) :
    def f( x, p ) :
        n = 0
        r = 0
        for d in range( deg + 1 ) :
            for k in range( d + 1 ) :
                r = r + p[n] * x[:,0] ** ( d - k ) * x[:,1] ** k
                n += 1
        return r
    return f

def r_poly( x, p ) :
    return sum( p[k] * x ** k for k in range( len( p ) ) ) + 0 * x

def r_psa( deg, fr ) :
    def f( x, p ) :
        n = deg + 1
        return r_poly( x[:,1], p[:n] ) * numpy.cos( TP * fr * x[:,0] ) + \
               r_poly( x[:,1], p[n:] ) * numpy.sin( TP * fr * x[:,0] )
    return f

def r_harm( order, per ) :
    def f( x, p ) :
        r = 0 * x
        for j in range( 1, order + 1 ) :
            r = r + p[2*j-2] * numpy.cos( TP * j * x / per ) + p[2*j-1] * numpy.sin( TP * j * x / per )
        return r
    return f

def r_football( cx ) :
    """ doc formula; unused items at their default: defense 0, others 1 """
    def f( x, p ) :
        out = []
        for h, a in x :
            q = []
            for t in ( int( h ), int( a ) ) :
                v = [0.0, 0.0, 1.0, 1.0, 1.0]
                v[:cx] = list( p[t*cx:(t+1)*cx] )
                q += [v]
            u, w = q
            m = u[2] * u[3] / w[2]
            S1 = u[0] * math.sqrt( m * u[4] ) * ( 1 - w[1] ** ( m * w[4] ) )
            S2 = w[0] * math.sqrt( w[4] / m ) * ( 1 - u[1] ** ( u[4] / m ) )
            out += [[S1,S2]]
        return numpy.array( out )
    return f

def r_softmax( ndim, ndout, offset, normed ) :
    def f( x, p ) :
        xx = numpy.reshape( x, ( -1, ndim ) )
        r = numpy.zeros( ( len( xx ), ndout ) )
        for n in range( ndout ) :
            for k in range( ndim ) : r[:,n] += xx[:,k] * p[n*ndim+k]
            if offset : r[:,n] += p[ndim*ndout+n]
        if normed :
            if ndout == 1 : r = 1 / ( 1 + numpy.exp( -r ) )
            else :
                e = numpy.exp( r )
                r = e / numpy.sum( e, axis=1 )[:,None]
        return r if ndout > 1 else r[:,0]
    return f

def splbasis( x, knots, order ) :
    """ documented: any function f in the spline space; here basis as implemented by SplinesModel:
        1, x .. x^(order-1), then differences of truncated powers """
    n = len( knots ) + order - 1
    out = [x ** i for i in range( order )]
    tp = lambda k : numpy.where( x >= k, numpy.power( numpy.abs( x - k ), order ), 0.0 ) if order > 0 else numpy.where( x >= k, 1.0, 0.0 )
    prev = x ** order if order > 0 else numpy.ones_like( x )
    for k in range( 1, len( knots ) - 1 ) :
        t = tp( knots[k] )
        out += [prev - t]
        prev = t
    out += [prev]
    assert len( out ) == n
    return numpy.array( out ).T

def r_spl( knots, order ) :
    return lambda x, p : splbasis( x, knots, order ) @ numpy.asarray( p )

def bspl( x, knots, order, der=0 ) :
    """ Cox - de Boor; clamped ends """
    t = [knots[0]] * order + list( knots ) + [knots[-1]] * order
    n = len( knots ) + order - 1
    N = [[( 1.0 if ( t[i] <= v < t[i+1] or ( v == knots[-1] and t[i] < t[i+1] == knots[-1] ) ) else 0.0 )
            for i in range( len( t ) - 1 )] for v in x]
    N = numpy.array( N )
    for d in range( 1, order + 1 ) :
        M = numpy.zeros( ( len( x ), N.shape[1] - 1 ) )
        for i in range( M.shape[1] ) :
            a = t[i+d] - t[i]
            b = t[i+d+1] - t[i+1]
            if a > 0 : M[:,i] += ( x - t[i] ) / a * N[:,i]
            if b > 0 : M[:,i] += ( t[i+d+1] - x ) / b * N[:,i+1]
        N = M
    return N[:,:n]

def kepler( x, p ) :
    """ radius and true anomaly by bisection of Kepler's equation M = E - e sinE """
    e, a, P, ph = p[:4]
    r = []
    v = []
    for xx in x :
        M = TP * xx / P - ph
        lo, hi = M - 1.1, M + 1.1
        for i in range( 90 ) :
            E = 0.5 * ( lo + hi )
            if E - e * math.sin( E ) > M : hi = E
            else : lo = E
        r += [a * ( 1 - e * math.cos( E ) )]
        # position in the orbital plane
        X = a * ( math.cos( E ) - e )
        Y = a * math.sqrt( 1 - e * e ) * math.sin( E )
        v += [math.atan2( Y, X )]
    return numpy.array( r ), numpy.array( v )

def r_rv( x, p ) :
    r, v = kepler( x, p )
    return p[1] * ( numpy.cos( v + p[4] ) + p[0] * math.cos( p[4] ) )

def r_so( spherical ) :
    def f( x, p ) :
        r, v = kepler( x, p )
        i, O, o = p[4:7]
        u = r * numpy.cos( v + o )
        w = r * numpy.sin( v + o ) * math.cos( i )
        rho = numpy.hypot( u, w )
        th = numpy.arctan2( w, u ) + O
        if spherical :
            return numpy.array( [rho,th] ).T
        return numpy.array( [rho * numpy.sin( th ), -rho * numpy.cos( th )] ).T
    return f

def r_k2( kf, shape ) :
    def f( x, p ) :
        X = x[:,0] - p[1]
        Y = x[:,1] - p[2]
        if shape == 1 : u, v = X / p[3], Y / p[3]
        elif shape == 2 : u, v = X / p[3], Y / p[4]
        else :
            c, s = math.cos( p[5] ), math.sin( p[5] )
            u, v = ( X * c - Y * s ) / p[3], ( X * s + Y * c ) / p[4]
        return p[0] * kf( numpy.sqrt( u * u + v * v ) )
    return f

# documented kernels  ( BayesicFitting/source/kernels, name() )
def inside( f ) :
    return lambda x : numpy.where( numpy.abs( x ) < 1, f( x ), 0.0 )
KERNELS = {
  'Biweight' : ( B.Biweight, inside( lambda x : ( 1 - x * x ) ** 2 ) ),
  'CosSquare' : ( B.CosSquare, inside( lambda x : numpy.cos( 0.5 * pi * x ) ** 2 ) ),
  'Cosine' : ( B.Cosine, inside( lambda x : numpy.cos( 0.5 * pi * x ) ) ),
  'Gauss' : ( B.Gauss, lambda x : numpy.exp( -0.5 * x * x ) ),
  'Huber' : ( B.Huber, lambda x : numpy.where( numpy.abs( x ) < 1, 1.0, 1 / numpy.maximum( numpy.abs( x ), 1e-300 ) ) ),
  'Lorentz' : ( B.Lorentz, lambda x : 1 / ( 1 + x * x ) ),
  'Parabola' : ( B.Parabola, inside( lambda x : 1 - x * x ) ),
  'Sinc' : ( B.Sinc, lambda x : numpy.sinc( x ) ),
  'Triangle' : ( B.Triangle, inside( lambda x : 1 - numpy.abs( x ) ) ),
  'Tricube' : ( B.Tricube, inside( lambda x : ( 1 - numpy.abs( x ) ** 3 ) ** 3 ) ),
  'Triweight' : ( B.Triweight, inside( lambda x : ( 1 - x * x ) ** 3 ) ),
  'Uniform' : ( B.Uniform, inside( lambda x : 1.0 + 0 * x ) ),
}
_conv = {}
def tophat( n ) :
    """ n-fold autoconvolved tophat, normalised to 1 at 0: B-spline of order n  """
    from fractions import Fraction
    def f( x ) :
        x = numpy.asarray( x, dtype=float )
        def bs( u ) :
            m = n + 1
            s = numpy.zeros_like( u )
            for k in range( m + 1 ) :
                t = u + m / 2 - k
                s = s + ( -1 ) ** k * math.comb( m, k ) * numpy.where( t > 0, numpy.abs( t ) ** n, 0.0 )
            return s / math.factorial( n )
        return numpy.where( numpy.abs( x ) < ( n + 1 ) / 2, bs( x ) / bs( numpy.zeros( 1 ) ), 0.0 )
    return f
for n in range( 7 ) :
    KERNELS['Tophat%d' % n] = ( ( lambda n=n : B.Tophat( nconv=n ) ), tophat( n ) )

class AModel( object ) :
    def __init__( self, name, make, ref, pars, x=X1, ndim=1, ndout=1, lin=False, fix=True, der=True,
                  smooth=True, par=True ) :
        self.name, self.make, self.ref = name, make, ref
        self.pars = [A( *p ) for p in pars]
        self.x = x
        self.ndim, self.ndout, self.lin, self.fix, self.der, self.smooth = ndim, ndout, lin, fix, der, smooth
        self.par = par

CAT = []
def add( *a, **k ) :
    CAT.append( AModel( *a, **k ) )

add( 'Arctan', B.ArctanModel, lambda x, p : p[0] * numpy.arctan( p[2] * ( x - p[1] ) ), [[1.3,0.2,0.7],[-0.6,-0.4,-1.9]] )
add( 'Exp', B.ExpModel, lambda x, p : p[0] * numpy.exp( p[1] * x ), [[1.1,-0.8],[-0.7,0.5]] )
add( 'ExpDecay', lambda **k : B.ExpModel( decay=True, **k ), lambda x, p : p[0] * numpy.exp( -p[1] * x ), [[1.1,0.8],[-0.7,-0.5]] )
add( 'Gauss', B.GaussModel, lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 ), [[1.3,0.2,0.7],[-0.6,-0.4,1.9]] )
add( 'Lorentz', B.LorentzModel, lambda x, p : p[0] * p[2]**2 / ( ( x - p[1] ) ** 2 + p[2]**2 ), [[1.3,0.2,0.7],[-0.6,-0.4,1.9]] )
add( 'Logistic', B.LogisticModel, lambda x, p : p[0] / ( 1 + numpy.exp( ( p[1] - x ) / p[2] ) ), [[1.3,0.2,0.7],[-0.6,-0.4,-1.9]] )
add( 'Power2', lambda **k : B.PowerModel( 2, **k ), lambda x, p : p[0] * x ** 2, [[1.3],[-0.4]], lin=True )
add( 'Power-1', lambda **k : B.PowerModel( -1, **k ), lambda x, p : p[0] / x, [[1.3],[-0.4]], lin=True )
add( 'Power1.5', lambda **k : B.PowerModel( 1.5, **k ), lambda x, p : p[0] * x ** 1.5, [[1.3],[-0.4]], lin=True, x=XP )
add( 'PowerLaw', B.PowerLawModel, lambda x, p : p[0] * ( x - p[1] ) ** p[2], [[1.3,-0.4,1.7],[-0.6,0.1,-0.8]], x=XP )
add( 'Sinc', B.SincModel, lambda x, p : p[0] * numpy.sinc( ( x - p[1] ) / p[2] ), [[1.3,0.2,0.7],[-0.6,-0.4,1.9]] )
add( 'Sine', B.SineModel, lambda x, p : p[1] * numpy.cos( TP * p[0] * x ) + p[2] * numpy.sin( TP * p[0] * x ), [[0.3,1.1,-0.6],[-0.8,0.4,0.9]] )
add( 'SinePhase', lambda **k : B.SineModel( phase=True, **k ), lambda x, p : p[0] * numpy.sin( TP * p[1] * x + p[2] ), [[1.2,0.3,0.4],[-0.8,0.7,2.9]] )
add( 'SineAmp', lambda **k : B.SineAmpModel( 0.4, **k ), lambda x, p : p[0] * numpy.cos( TP * 0.4 * x ) + p[1] * numpy.sin( TP * 0.4 * x ), [[1.2,0.3],[-0.8,0.7]], lin=True )
add( 'SineDrift', B.SineDriftModel, lambda x, p : p[1] * numpy.cos( TP * x * ( p[0] + x * p[3] ) ) + p[2] * numpy.sin( TP * x * ( p[0] + x * p[3] ) ), [[0.3,1.1,-0.6,0.12],[-0.2,0.4,0.9,-0.2]] )
add( 'PolySineAmp', lambda **k : B.PolySineAmpModel( 1, 0.4, **k ), r_psa( 1, 0.4 ), [[1.2,0.3,-0.5,0.8],[-0.8,0.7,0.2,0.1]], x=X2, ndim=2, lin=True, fix=False )
add( 'PseudoVoigt', B.PseudoVoigtModel, lambda x, p : p[0] * ( p[3] * p[2]**2 / ( ( x - p[1] ) ** 2 + p[2]**2 ) + ( 1 - p[3] ) * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 ) ), [[1.3,0.2,0.7,0.3],[-0.6,-0.4,1.9,0.8]] )
add( 'Voigt', B.VoigtModel, r_voigt, [[1.3,0.2,0.7,0.3],[-0.6,-0.4,1.9,0.8]] )
add( 'Pade21', lambda **k : B.PadeModel( 2, 1, fixed=None if False else k.pop( 'fixed', {3:1.0} ), **k ), lambda x, p : ( p[0] + p[1] * x + p[2] * x * x ) / ( 1 + p[3] * x ), [[1.3,0.2,0.7,0.3],[-0.6,-0.4,1.9,-0.2]], fix=False )
add( 'Pade11', lambda **k : B.PadeModel( 1, 1, fixed=k.pop( 'fixed', {2:1.0} ), **k ), lambda x, p : ( p[0] + p[1] * x ) / ( 1 + p[2] * x ), [[1.3,0.2,0.3],[-0.6,-0.4,-0.2]], fix=False )
for d in ( 0, 1, 3 ) :
    add( 'Poly%d' % d, lambda d=d, **k : B.PolynomialModel( d, **k ), r_poly, [[1.3,0.2,0.7,-0.3][:d+1],[-0.6,-0.4,1.9,0.8][:d+1]], lin=True )
for d in ( 1, 3 ) :
    add( 'Cheb%d' % d, lambda d=d, **k : B.ChebyshevPolynomialModel( d, **k ), lambda x, p : sum( p[k] * cheb( k, x ) for k in range( len( p ) ) ), [[1.3,0.2,0.7,-0.3][:d+1],[-0.6,-0.4,1.9,0.8][:d+1]], lin=True )
add( 'Harm1', lambda **k : B.HarmonicModel( 1, **k ), r_harm( 1, 1.0 ), [[1.2,0.3],[-0.8,0.7]], lin=True )
add( 'Harm2', lambda **k : B.HarmonicModel( 2, 2.7, **k ), r_harm( 2, 2.7 ), [[1.2,0.3,-0.4,0.2],[-0.8,0.7,0.1,0.9]], lin=True )
add( 'Etalon', B.EtalonModel, lambda x, p : p[0] / ( 1 + p[1] * numpy.sin( pi * p[2] * x + p[3] ) ** 2 ), [[1.3,0.9,0.7,0.3],[-0.6,2.4,0.4,0.8]] )
add( 'EtalonDrift', B.EtalonDriftModel, lambda x, p : p[0] / ( 1 + p[1]**2 * numpy.sin( pi * ( p[2] * x[:,0] + p[3] + p[4] * x[:,1] ) ) ** 2 ), [[1.3,0.9,0.7,0.3,0.2],[-0.6,1.4,0.4,0.8,-0.3]], x=X2, ndim=2 )
add( 'PolySurf1', lambda **k : B.PolySurfaceModel( 1, **k ), r_polysurf( 1 ), [[1.3,0.2,0.7],[-0.6,-0.4,1.9]], x=X2, ndim=2, lin=True )
add( 'PolySurf2', lambda **k : B.PolySurfaceModel( 2, **k ), r_polysurf( 2 ), [[1.3,0.2,0.7,0.1,-0.4,0.6],[-0.6,-0.4,1.9,0.3,0.8,-1.1]], x=X2, ndim=2, lin=True )
KN = [-2.0,-0.8,0.1,0.6,2.0]
KN2 = [-2.0,0.1,2.0]
XS = A( -1.9, -1.1, -0.5, 0.03, 0.34, 0.95, 1.7 )
for o in ( 1, 2, 3 ) :
    n = len( KN ) + o - 1
    add( 'Splines%d' % o, lambda o=o, **k : B.SplinesModel( knots=KN, order=o, **k ), r_spl( KN, o ), [[math.sin( 1.3 * i + 0.4 ) for i in range( n )],[math.cos( 2.1 * i ) for i in range( n )]], lin=True, x=XS )
for o in ( 0, 1, 2, 3 ) :
    n = len( KN ) + o - 1
    add( 'BSplines%d' % o, lambda o=o, **k : B.BasicSplinesModel( knots=KN, order=o, **k ), None, [[math.sin( 1.3 * i + 0.4 ) for i in range( n )],[math.cos( 2.1 * i ) for i in range( n )]], lin=True, x=XS )
add( 'SurfSpl', lambda **k : B.SurfaceSplinesModel( [KN2,KN2], order=2, **k ),
     lambda x, p : numpy.einsum( 'ni,nj,ij->n', splbasis( x[:,0], KN2, 2 ), splbasis( x[:,1], KN2, 2 ), numpy.reshape( p, ( 4, 4 ) ) ),
     [[math.sin( 1.3 * i + 0.4 ) for i in range( 16 )]], lin=True, x=X2, ndim=2, fix=False )
add( 'SineSpline', lambda **k : B.SineSplineModel( 0.4, KN2, order=2, **k ),
     lambda x, p : ( splbasis( x, KN2, 2 ) @ p[:4] ) * numpy.cos( TP * 0.4 * x ) + ( splbasis( x, KN2, 2 ) @ p[4:] ) * numpy.sin( TP * 0.4 * x ),
     [[math.sin( 1.3 * i + 0.4 ) for i in range( 8 )],[math.cos( 2.1 * i ) for i in range( 8 )]], lin=True, x=XS, fix=False )
add( 'SineSplineDrift', lambda **k : B.SineSplineDriftModel( KN2, order=2, degree=1, **k ),
     lambda x, p : ( splbasis( x, KN2, 2 ) @ p[2:6] ) * numpy.cos( TP * x * ( p[0] + p[1] * x ) ) + ( splbasis( x, KN2, 2 ) @ p[6:] ) * numpy.sin( TP * x * ( p[0] + p[1] * x ) ),
     [[0.3,0.07] + [math.sin( 1.3 * i + 0.4 ) for i in range( 8 )],[-0.2,0.1] + [math.cos( 2.1 * i ) for i in range( 8 )]], x=XS, fix=False )
for nm in ( 'Biweight', 'CosSquare', 'Gauss', 'Lorentz', 'Parabola', 'Tricube', 'Triweight', 'Cosine', 'Triangle', 'Huber', 'Tophat2', 'Tophat5' ) :
    add( 'K' + nm, lambda nm=nm, **k : B.KernelModel( kernel=KERNELS[nm][0](), **k ),
         lambda x, p, nm=nm : p[0] * KERNELS[nm][1]( ( x - p[1] ) / p[2] ), [[1.3,0.2,0.73],[-0.6,-0.4,1.9]] )
for sh in ( 1, 2, 3 ) :
    pp = [[1.3,0.2,-0.1,0.9],[-0.6,-0.4,0.3,1.9]]
    if sh > 1 : pp = [q + [e] for q, e in zip( pp, ( 0.55, 1.2 ) )]
    if sh > 2 : pp = [q + [e] for q, e in zip( pp, ( 0.3, -0.9 ) )]
    for nm in ( 'Gauss', 'Lorentz', 'Biweight' ) :
        add( 'K2%d%s' % ( sh, nm ), lambda nm=nm, sh=sh, **k : B.Kernel2dModel( kernel=KERNELS[nm][0](), shape=sh, **k ),
             r_k2( KERNELS[nm][1], sh ), pp, x=X2, ndim=2, fix=False )
XO = A( 0.1, 0.45, 0.93, 1.7, 2.2 )
add( 'RadialVelocity', B.RadialVelocityModel, r_rv, [[0.3,1.2,1.9,0.4,0.7],[0.05,0.8,3.1,2.0,4.0]], x=XO )
add( 'StellarOrbit', lambda **k : B.StellarOrbitModel( spherical=False, **k ), r_so( False ), [[0.3,1.2,1.9,0.4,0.7,0.3,1.1],[0.05,0.8,3.1,2.0,0.4,1.2,2.9]], x=XO, ndout=2 )
add( 'StellarOrbitS', lambda **k : B.StellarOrbitModel( spherical=True, **k ), r_so( True ), [[0.3,1.2,1.9,0.4,0.7,0.3,1.1],[0.05,0.8,3.1,2.0,0.4,1.2,2.9]], x=XO, ndout=2 )
XF = numpy.array( [[0,1],[1,2],[2,0],[1,0]], dtype=int )
for cx in range( 1, 6 ) :
    add( 'Football%d' % cx, lambda cx=cx, **k : B.FootballModel( 3, complexity=cx, **k ), r_football( cx ),
         [[[2.1,0.4,1.1,1.3,0.8][i] + 0.07 * t * ( 1 if i != 1 else -1 ) for t in range( 3 ) for i in range( cx )]], x=XF, ndim=2, ndout=2, der=False, fix=False )
for nd, no, of, nr in [(1,1,0,1),(1,1,1,1),(2,1,1,1),(1,2,0,1),(1,2,1,1),(2,2,0,1),(2,2,1,1),(2,3,1,1),(2,2,1,0)] :
    n = nd * no + of * no
    add( 'SoftMax%d%d%d%d' % ( nd, no, of, nr ), lambda nd=nd, no=no, of=of, nr=nr, **k : B.SoftMaxModel( ndim=nd, ndout=no, offset=bool( of ), normed=bool( nr ), **k ),
         r_softmax( nd, no, of, nr ), [[math.sin( 1.3 * i + 0.4 ) for i in range( n )]], x=X1 if nd == 1 else X2, ndim=nd, ndout=no, fix=False )
add( 'FreeShape', lambda **k : B.FreeShapeModel( 4, nconvolve=2, xlo=-2.0, xhi=2.0, **k ),
     lambda x, p : sum( p[k] * tophat( 2 )( ( x + 2.0 ) + 0.5 - k ) for k in range( 4 ) ), [[1.3,0.2,0.7,-0.3],[-0.6,-0.4,1.9,0.8]], lin=True, fix=False )
add( 'Product', lambda **k : B.ProductModel( [B.PolynomialModel( 1 ), B.GaussModel()], **k ),
     lambda x, p : ( p[0] + p[1] * x[:,0] ) * p[2] * numpy.exp( -0.5 * ( ( x[:,1] - p[3] ) / p[4] ) ** 2 ), [[1.3,0.2,0.7,-0.3,1.2],[-0.6,-0.4,1.9,0.8,0.7]], x=X2, ndim=2, fix=False )
add( 'PolyDyn', lambda **k : B.PolynomialDynamicModel( 2, **k ), r_poly, [[1.3,0.2,0.7],[-0.6,-0.4,1.9]], lin=True, fix=False )
add( 'HarmDyn', lambda **k : B.HarmonicDynamicModel( 2, **k ), r_harm( 2, 1.0 ), [[1.2,0.3,-0.4,0.2]], lin=True, fix=False )
add( 'SplDyn', lambda **k : B.SplinesDynamicModel( knots=KN, order=2, **k ), None, [[math.sin( 1.3 * i + 0.4 ) for i in range( 6 )]], lin=True, fix=False, x=XS )
add( 'Repeat', lambda **k : B.RepeatingModel( 2, B.GaussModel(), **k ),
     lambda x, p : sum( p[3*i] * numpy.exp( -0.5 * ( ( x - p[3*i+1] ) / p[3*i+2] ) ** 2 ) for i in range( 2 ) ), [[1.3,0.2,0.7,-0.3,1.2,0.8]], fix=False )
add( 'RepeatSame', lambda **k : B.RepeatingModel( 2, B.GaussModel(), same=2, **k ),
     lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 ) + p[3] * numpy.exp( -0.5 * ( ( x - p[4] ) / p[2] ) ** 2 ), [[1.3,0.2,0.7,-0.3,1.2]], fix=False )
add( 'CombiAdd', lambda **k : B.CombiModel( B.GaussModel(), 2, addCombi={1:[0,0.9]}, **k ),
     lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 ) + p[3] * numpy.exp( -0.5 * ( ( x - p[1] - 0.9 ) / p[4] ) ** 2 ), [[1.3,0.2,0.7,-0.3,1.2]], fix=False )
add( 'CombiMul', lambda **k : B.CombiModel( B.GaussModel(), 2, mulCombi={2:[1,1.7]}, **k ),
     lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 ) + p[3] * numpy.exp( -0.5 * ( ( x - p[4] ) / ( p[2] * 1.7 ) ) ** 2 ), [[1.3,0.2,0.7,-0.3,1.2]], fix=False )

BYNAME = { m.name : m for m in CAT }
def _ur( x, p ) : return p[0] * numpy.exp( p[1] * x ) + p[2] * x
def _up( x, p ) :
    e = numpy.exp( p[1] * x )
    return numpy.array( [e, p[0] * x * e, x + 0 * p[2]] ).T
def _ud( x, p ) : return p[0] * p[1] * numpy.exp( p[1] * x ) + p[2]
add( 'User', lambda **k : B.UserModel( 3, _ur, **k ), _ur, [[1.2,0.4,-0.3],[-0.7,-0.8,1.1]] )
add( 'UserPD', lambda **k : B.UserModel( 3, _ur, userPartial=_up, userDeriv=_ud, **k ), _ur, [[1.2,0.4,-0.3],[-0.7,-0.8,1.1]] )
try :
    from astropy.modeling import models as _am
    def _astro( cls ) :
        return lambda **k : B.AstropyModel( cls(), **k )
    add( 'AstroGauss', _astro( _am.Gaussian1D ), lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 ), [[1.3,0.2,0.7],[-0.6,-0.4,1.9]] )
    add( 'AstroPlane', _astro( _am.Planar2D ), lambda x, p : p[0] * x[:,0] + p[1] * x[:,1] + p[2], [[1.3,0.2,0.7],[-0.6,-0.4,1.9]], x=X2, ndim=2 )
except ImportError :
    pass
add( 'Const', lambda **k : B.ConstantModel( values=[1.7] ), lambda x, p : 1.7 + 0 * x, [[]], fix=False )
add( 'ConstGauss', lambda **k : B.ConstantModel( fixedModel=B.GaussModel(), values=[1.7,0.2,0.6] ), lambda x, p : 1.7 * numpy.exp( -0.5 * ( ( x - 0.2 ) / 0.6 ) ** 2 ), [[]], fix=False )
BYNAME = { m.name : m for m in CAT }

# ---- the same models in many more orders, degrees, sizes and layouts
_ncat = len( CAT )
def _pv( n ) : return [[math.sin( 1.3 * i + 0.4 ) for i in range( n )],[math.cos( 2.1 * i ) for i in range( n )]]
def _rcheb( x, p ) : return sum( p[k] * cheb( k, x ) for k in range( len( p ) ) )
KN3 = [-2.0,-1.3,-0.9,0.2,0.4,1.1,2.0]
for d in ( 2, 4, 5, 6, 7 ) :
    add( 'xPoly%d' % d, lambda d=d, **k : B.PolynomialModel( d, **k ), r_poly, _pv( d + 1 ), lin=True )
for d in ( 0, 2, 4, 5, 6, 7 ) :
    add( 'xCheb%d' % d, lambda d=d, **k : B.ChebyshevPolynomialModel( d, **k ), _rcheb, _pv( d + 1 ), lin=True, x=A( -0.95, -0.6, -0.05, 0.3, 0.9 ) )
for o in ( 3, 4, 5 ) :
    for per in ( 1.0, 3.3 ) :
        add( 'xHarm%d.%g' % ( o, per ), lambda o=o, per=per, **k : B.HarmonicModel( o, per, **k ), r_harm( o, per ), _pv( 2 * o ), lin=True )
for nu, de in ( ( 0, 1 ), ( 1, 2 ), ( 3, 1 ), ( 2, 3 ), ( 4, 3 ), ( 3, 4 ) ) :
    add( 'xPade%d%d' % ( nu, de ), lambda nu=nu, de=de, **k : B.PadeModel( nu, de, fixed=k.pop( 'fixed', { nu + 1 : 1.0 } ), **k ), ( lambda nu, de : lambda x, p :
         sum( p[i] * x ** i for i in range( nu + 1 ) ) / ( 1 + sum( p[nu+i] * x ** i for i in range( 1, de + 1 ) ) ) )( nu, de ),
         [[math.sin( 1.3 * i + 0.4 ) for i in range( nu + 1 )] + [0.2,0.13,0.07,0.05][:de]], fix=False )
for e in ( -2, 0, 1, 3, 4, 5 ) :
    add( 'xPower%d' % e, lambda e=e, **k : B.PowerModel( e, **k ), lambda x, p, e=e : p[0] * x ** float( e ), [[1.3],[-0.4]], lin=True )
for d in ( 0, 3, 4, 5 ) :
    add( 'xPolySurf%d' % d, lambda d=d, **k : B.PolySurfaceModel( d, **k ), r_polysurf( d ), _pv( ( d + 1 ) * ( d + 2 ) // 2 ), x=X2, ndim=2, lin=True )
for o in ( 0, 1, 2, 3, 4, 5 ) :
    for nm, kn in ( ( 'a', KN2 ), ( 'b', KN3 ), ( 'c', KN ) ) :
        n = len( kn ) + o - 1
        if n < 1 : continue
        if not ( nm == 'c' and 0 < o < 4 ) : add( 'xSplines%d%s' % ( o, nm ), lambda o=o, kn=kn, **k : B.SplinesModel( knots=kn, order=o, **k ), r_spl( kn, o ), _pv( n ), lin=True, x=XS )
        if not ( nm == 'c' and o < 4 or o > 3 and nm == 'b' or o == 5 and nm == 'c' ) : add( 'xBSplines%d%s' % ( o, nm ), lambda o=o, kn=kn, **k : B.BasicSplinesModel( knots=kn, order=o, **k ), ( lambda kn, o : lambda x, p : bspl( x, kn, o ) @ numpy.asarray( p ) )( kn, o ), _pv( n ), lin=True, x=XS )
for d in ( 0, 2, 3 ) :
    for fr in ( 0.4, 1.1 ) :
        add( 'xPolySineAmp%d.%g' % ( d, fr ), lambda d=d, fr=fr, **k : B.PolySineAmpModel( d, fr, **k ), r_psa( d, fr ), _pv( 2 * d + 2 ), x=X2, ndim=2, lin=True, fix=False )
for o in ( 1, 3 ) :
    m = len( KN2 ) + o - 1
    add( 'xSurfSpl%d' % o, lambda o=o, **k : B.SurfaceSplinesModel( [KN2,KN2], order=o, **k ),
         lambda x, p, o=o, m=m : numpy.einsum( 'ni,nj,ij->n', splbasis( x[:,0], KN2, o ), splbasis( x[:,1], KN2, o ), numpy.reshape( p, ( m, m ) ) ), _pv( m * m ), lin=True, x=X2, ndim=2, fix=False )
    add( 'xSineSpline%d' % o, lambda o=o, **k : B.SineSplineModel( 0.4, KN2, order=o, **k ),
         lambda x, p, o=o, m=m : ( splbasis( x, KN2, o ) @ p[:m] ) * numpy.cos( TP * 0.4 * x ) + ( splbasis( x, KN2, o ) @ p[m:] ) * numpy.sin( TP * 0.4 * x ), _pv( 2 * m ), lin=True, x=XS, fix=False )
for o, d in ( ( 1, 1 ), ( 3, 2 ), ( 2, 3 ) ) :
    m = len( KN2 ) + o - 1
    add( 'xSineSplineDrift%d%d' % ( o, d ), lambda o=o, d=d, **k : B.SineSplineDriftModel( KN2, order=o, degree=d, **k ),
         lambda x, p, m=m, d=d : ( splbasis( x, KN2, m - 2 ) @ p[d+1:d+1+m] ) * numpy.cos( TP * x * sum( p[i] * x ** i for i in range( d + 1 ) ) ) + ( splbasis( x, KN2, m - 2 ) @ p[d+1+m:] ) * numpy.sin( TP * x * sum( p[i] * x ** i for i in range( d + 1 ) ) ),
         [[0.3,0.07,-0.04,0.02][:d+1] + _pv( 2 * m )[0], [-0.2,0.1,0.03,-0.05][:d+1] + _pv( 2 * m )[1]], x=XS, fix=False )
for nd, no, of, nr in [(1,3,1,1),(1,4,0,1),(2,4,1,1),(2,3,0,0),(2,3,1,0),(1,3,0,0)] :
    n = nd * no + of * no
    add( 'xSoftMax%d%d%d%d' % ( nd, no, of, nr ), lambda nd=nd, no=no, of=of, nr=nr, **k : B.SoftMaxModel( ndim=nd, ndout=no, offset=bool( of ), normed=bool( nr ), **k ),
         r_softmax( nd, no, of, nr ), _pv( n ), x=X1 if nd == 1 else X2, ndim=nd, ndout=no, fix=False )
for nm in KERNELS :
    if nm in ( 'Biweight', 'CosSquare', 'Gauss', 'Lorentz', 'Parabola', 'Tricube', 'Triweight', 'Cosine', 'Triangle', 'Huber', 'Tophat2', 'Tophat5', 'Uniform', 'Tophat0' ) : continue
    add( 'xK' + nm, lambda nm=nm, **k : B.KernelModel( kernel=KERNELS[nm][0](), **k ),
         lambda x, p, nm=nm : p[0] * KERNELS[nm][1]( ( x - p[1] ) / p[2] ), [[1.3,0.2,0.73],[-0.6,-0.4,1.9]] )
for sh in ( 1, 2, 3 ) :
    pp = [[1.3,0.2,-0.1,0.9],[-0.6,-0.4,0.3,1.9]]
    if sh > 1 : pp = [q + [e] for q, e in zip( pp, ( 0.55, 1.2 ) )]
    if sh > 2 : pp = [q + [e] for q, e in zip( pp, ( 0.3, -0.9 ) )]
    for nm in ( 'CosSquare', 'Triweight', 'Tricube', 'Tophat4', 'Sinc' ) :
        add( 'xK2%d%s' % ( sh, nm ), lambda nm=nm, sh=sh, **k : B.Kernel2dModel( kernel=KERNELS[nm][0](), shape=sh, **k ), r_k2( KERNELS[nm][1], sh ), pp, x=X2, ndim=2, fix=False )
def _g( x, a, c, s ) : return a * numpy.exp( -0.5 * ( ( x - c ) / s ) ** 2 )
add( 'xRepeat3', lambda **k : B.RepeatingModel( 3, B.GaussModel(), **k ), lambda x, p : sum( _g( x, *p[3*i:3*i+3] ) for i in range( 3 ) ), [[1.3,0.2,0.7,-0.3,1.2,0.8,0.5,-0.7,1.1]], fix=False )
add( 'xRepeat3Same', lambda **k : B.RepeatingModel( 3, B.GaussModel(), same=2, **k ), lambda x, p : _g( x, p[0], p[1], p[2] ) + _g( x, p[3], p[4], p[2] ) + _g( x, p[5], p[6], p[2] ), [[1.3,0.2,0.7,-0.3,1.2,0.8,0.5]], fix=False )
add( 'xRepeatIso', lambda **k : B.RepeatingModel( 2, B.GaussModel(), isDynamic=False, **k ) if False else B.RepeatingModel( 1, B.GaussModel(), **k ), lambda x, p : _g( x, *p ), [[1.3,0.2,0.7]], fix=False )
add( 'xCombi3', lambda **k : B.CombiModel( B.GaussModel(), 3, addCombi={1:[0,0.9,-0.4]}, mulCombi={2:[1,1.7,0.6]}, **k ),
     lambda x, p : _g( x, p[0], p[1], p[2] ) + _g( x, p[3], p[1] + 0.9, 1.7 * p[2] ) + _g( x, p[4], p[1] - 0.4, 0.6 * p[2] ), [[1.3,0.2,0.7,-0.3,1.2]], fix=False )
X3 = numpy.array( [[-1.2,0.4,0.3],[-0.3,-0.8,1.2],[0.25,0.15,-0.6],[0.7,1.1,0.9]] )
add( 'xProduct3', lambda **k : B.ProductModel( [B.PolynomialModel( 1 ), B.GaussModel(), B.SineAmpModel( 0.3 )], **k ),
     lambda x, p : ( p[0] + p[1] * x[:,0] ) * _g( x[:,1], *p[2:5] ) * ( p[5] * numpy.cos( TP * 0.3 * x[:,2] ) + p[6] * numpy.sin( TP * 0.3 * x[:,2] ) ), [[1.3,0.2,0.7,-0.3,1.2,0.5,-0.8]], x=X3, ndim=3, fix=False )
for d in ( 0, 1, 4 ) : add( 'xPolyDyn%d' % d, lambda d=d, **k : B.PolynomialDynamicModel( d, **k ), r_poly, _pv( d + 1 ), lin=True, fix=False )
for o in ( 1, 3, 4 ) : add( 'xHarmDyn%d' % o, lambda o=o, **k : B.HarmonicDynamicModel( o, period=2.2, **k ), r_harm( o, 2.2 ), _pv( 2 * o ), lin=True, fix=False )
for o in ( 1, 3 ) : add( 'xSplDyn%d' % o, lambda o=o, **k : B.SplinesDynamicModel( knots=KN, order=o, **k ), r_spl( KN, o ) if False else None, _pv( len( KN ) + o - 1 ), lin=True, fix=False, x=XS )
for nc, np_ in ( ( 0, 3 ), ( 1, 5 ), ( 3, 4 ), ( 4, 6 ) ) :
    add( 'xFree%d%d' % ( nc, np_ ), lambda nc=nc, np_=np_, **k : B.FreeShapeModel( np_, nconvolve=nc, xlo=-2.0, xhi=-2.0 + np_, **k ),
         lambda x, p, nc=nc, np_=np_ : sum( p[k] * tophat( nc )( ( x + 2.0 ) + 0.5 - k ) for k in range( np_ ) ), _pv( np_ ), lin=True, fix=False, x=A( -0.33, 0.21, 0.6 ) )
EXT = CAT[_ncat:]
CAT = CAT[:_ncat]
BYNAME = { m.name : m for m in CAT + EXT }

def intx( mm ) :
    """ inputs that are whole numbers """
    if mm.ndim == 1 : return numpy.array( [1,2,3,1] )
    return numpy.array( [( [1,2,0] + [1] * mm.ndim )[:mm.ndim],( [0,1,2] + [2] * mm.ndim )[:mm.ndim],( [2,1,1] + [0] * mm.ndim )[:mm.ndim]] )

def intcheck( ctx, mm, p, name ) :
    """ a method of the model gives the same at integer numbers, in an array or in a list, as at the same floats """
    xi = intx( mm )
    with numpy.errstate( all='ignore' ) :
        try :
            full = numpy.array( getattr( mm.make(), name )( xi.astype( float ), p.copy() ), dtype=float )
        except ( ValueError, ZeroDivisionError, IndexError, ArithmeticError ) :
            return
        if not numpy.all( numpy.isfinite( full ) ) : return
        for what, xx in ( ( 'array', xi ), ( 'list', xi.tolist() ) ) :
            ctx.near( name + ' at integers', numpy.array( getattr( mm.make(), name )( xx, p.copy() ), dtype=float ), full, 1e-12, 1e-13, '%s %s' % ( mm.name, what ) )
        ctx.trans()
