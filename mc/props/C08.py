""" C08 kernels and splines bases have their defining properties """
import numpy, math, itertools
from fractions import Fraction
from scipy.interpolate import BSpline
import BayesicFitting as B

LEVEL = 'exploration'
RULE = ( 'every kernel ( all convolution orders ) on a grid with its edges, as 1-d and 2-d model in all shapes; every splines model for all orders x knot layouts x borders; '
         'each basis function by itself, compared with exact formulas ( truncated powers, Cox - de Boor ) and with the defining properties of splines' )
ASSUME = ['grids over the argument; knot layouts from a fixed list ( 2 to 8 knots, equidistant and not )']
BOUNDS = { 'quick' : 'orders 0-4', 'thorough' : 'orders 0-6' }
BUDGET = { 'quick' : 60, 'thorough' : 300 }

KN = ['Biweight','CosSquare','Cosine','Gauss','Huber','Lorentz','Parabola','Sinc','Triangle','Tricube','Triweight','Uniform'] + ['Tophat%d' % k for k in range( 7 )]
KNOTS = { 'k2' : [0.0,1.0], 'k3' : [-1.0,0.2,1.0], 'k4' : [0.0,1.0,2.0,3.0], 'k4n' : [-2.0,-1.5,0.5,1.0], 'k5' : [-1.0,-0.5,0.0,0.5,1.0], 'k5n' : [0.0,0.2,1.1,1.3,3.0],
          'k6n' : [-1.0,-0.6,-0.2,0.1,0.4,1.0], 'k7' : [0.0,10.0,20.0,30.0,40.0,50.0,60.0], 'k8n' : [0.0,0.1,0.3,0.6,1.0,1.5,2.1,2.8] }

def cases( tier ) :
    top = 5 if tier == 'quick' else 7
    out = [{ 'key' : 'kernel.' + k, 't' : 'kernel', 'k' : k } for k in KN]
    for o in range( top ) :
        for k in KNOTS :
            for t in ( 'splines','bsplines','basic','periodic' ) :
                out += [{ 'key' : '%s.%d.%s' % ( t, o, k ), 't' : t, 'o' : o, 'k' : k }]
    for o1, o2 in itertools.product( range( 1, 4 ), repeat=2 ) :
        for k1, k2 in ( ( 'k3','k4' ), ( 'k2','k5n' ), ( 'k4n','k3' ) ) :
            out += [{ 'key' : 'surface.%d.%d.%s.%s' % ( o1, o2, k1, k2 ), 't' : 'surface', 'o' : [o1,o2], 'k' : [k1,k2] }]
    return out

# ---- cardinal splines, exact --------------------------------------------------
def cardinal( n, x ) :
    """ n-fold self convolution of the unit box, peak normalised """
    def M( x ) :
        x = Fraction( x )
        s = Fraction( 0 )
        m = n + 1
        for k in range( m + 1 ) :
            t = x + Fraction( m, 2 ) - k
            if t > 0 : s += ( -1 ) ** k * math.comb( m, k ) * t ** n
        return s / math.factorial( n )
    p = M( 0 )
    return numpy.array( [float( M( Fraction( float( v ) ) ) / p ) for v in x] )

def kref( name, x ) :
    a = numpy.abs( x )
    def cut( f ) : return numpy.where( a <= 1, f, 0.0 )
    if name == 'Biweight' : return cut( ( 1 - x * x ) ** 2 )
    if name == 'Triweight' : return cut( ( 1 - x * x ) ** 3 )
    if name == 'CosSquare' : return cut( numpy.cos( 0.5 * math.pi * x ) ** 2 )
    if name == 'Cosine' : return cut( numpy.cos( 0.5 * math.pi * x ) )
    if name == 'Gauss' : return numpy.exp( -0.5 * x * x )
    if name == 'Huber' : return 1.0 / numpy.maximum( a, 1.0 )
    if name == 'Lorentz' : return 1 / ( 1 + x * x )
    if name == 'Parabola' : return cut( 1 - x * x )
    if name == 'Sinc' : return numpy.sinc( x )
    if name == 'Triangle' : return cut( 1 - a )
    if name == 'Tricube' : return cut( ( 1 - a ** 3 ) ** 3 )
    if name == 'Uniform' : return cut( 1.0 )
    n = int( name[-1] )
    if n == 0 : return numpy.where( a < 0.5, 1.0, 0.0 )
    return cardinal( n, x )

def edges( name ) :
    """ places where the kernel is not continuous / differentiable """
    if name == 'Tophat0' : return [0.5]
    if name == 'Tophat1' : return [0.0,1.0]
    if name.startswith( 'Tophat' ) : return []
    return { 'Uniform' : [1.0], 'Triangle' : [0.0,1.0], 'Huber' : [1.0], 'Parabola' : [1.0], 'Cosine' : [1.0] }.get( name, [] )

def mkkernel( name ) :
    return B.Tophat( nconv=int( name[-1] ) ) if name.startswith( 'Tophat' ) else getattr( B, name )()

def kernel( name, ctx ) :
    k = mkkernel( name )
    x = numpy.concatenate( [numpy.linspace( -4, 4, 161 ), [-0.73,-0.001,0.001,0.777,1.0 + 1e-9,2.5 - 1e-9]] )
    ed = edges( name )
    far = numpy.ones( len( x ), dtype=bool )
    for e in ed : far &= numpy.abs( numpy.abs( x ) - e ) > 1e-5
    ref = kref( name, x )
    ctx.near( 'value', k.result( x )[far], ref[far], 1e-10, 1e-10 )
    ctx.near( 'value as function of x^2', k.resultsq( x * x )[far], ref[far], 1e-7, 1e-7 )
    ctx.near( 'value for whole numbers', k.result( numpy.array( [0,2,3,-2] ) ), kref( name, numpy.array( [0.0,2,3,-2] ) ), 1e-10, 1e-10 )
    h = 1e-5
    inn = numpy.ones( len( x ), dtype=bool )
    knots = [0.5 * j for j in range( 8 )] if name.startswith( 'Tophat' ) and name[-1] in '0123' else []
    for e in ed + knots : inn &= numpy.abs( numpy.abs( x ) - e ) > 3 * h
    num = ( kref( name, x + h ) - kref( name, x - h ) ) / ( 2 * h )
    ctx.near( 'derivative', numpy.asarray( k.partial( x ) )[inn], num[inn], 1e-6, 3e-5 )
    ctx.eq( 'symmetric', True, bool( numpy.allclose( k.result( x ), k.result( -x ), rtol=1e-13, atol=1e-13 ) ) )
    # integral, fwhm, range
    if name != 'Huber' :
        r = { 'Gauss' : 12.0, 'Lorentz' : None, 'Sinc' : None }.get( name, 3.5 )
        if r is not None :
            n = 70000
            g = ( numpy.arange( n ) + 0.5 ) * ( 2 * r / n ) - r
            ctx.near( 'integral', k.integral, numpy.sum( k.result( g ) ) * 2 * r / n, 1e-4 )
        else :
            ctx.near( 'integral', k.integral, { 'Lorentz' : math.pi, 'Sinc' : 1.0 }[name], 1e-10 )
    lo, hi = 0.0, 3.0
    for i in range( 60 ) :
        mid = 0.5 * ( lo + hi )
        if float( numpy.ravel( kref( name, numpy.array( [mid] ) ) )[0] ) > 0.5 : lo = mid
        else : hi = mid
    ctx.near( 'full width at half maximum', k.fwhm, 2 * lo, 1e-6, 1e-6 )
    ctx.eq( 'bound', bool( k.isBound() ), bool( numpy.isfinite( k.range ) ) )
    if numpy.isfinite( k.range ) :
        o = numpy.array( [k.range + 1e-6, -k.range - 1e-6, k.range * 2, 30.0] )
        ctx.near( 'zero beyond its range', k.result( o ), numpy.zeros( 4 ), 0, 0 )
        ctx.true( 'nonzero within its range', numpy.all( k.result( numpy.array( [k.range * 0.97, -k.range * 0.97] ) ) > 0 ) )
    # 1-d model
    xx = numpy.array( [-0.83,-0.31,0.07,0.4,0.66,1.27] )
    for p in ( [2.0,0.1,0.9], [-1.3,-0.2,1.7] ) :
        p = numpy.array( p )
        for m in ( B.KernelModel( kernel=k ), B.KernelModel( kernel=k ).copy() ) :
            f = lambda x, p : p[0] * kref( name, ( x - p[1] ) / p[2] )
            ctx.near( '1-d result', m.result( xx, p.copy() ), f( xx, p ), 1e-9, 1e-9 )
            pt = m.partial( xx, p.copy() )
            for j in range( 3 ) :
                d = numpy.zeros( 3 )
                d[j] = 1e-5
                ctx.near( '1-d partial', pt[:,j], ( f( xx, p + d ) - f( xx, p - d ) ) / 2e-5, 1e-5, 1e-5, 'parameter %d' % j )
            ctx.near( '1-d derivative', m.derivative( xx, p.copy() ), ( f( xx + h, p ) - f( xx - h, p ) ) / ( 2 * h ), 1e-5, 1e-5 )
    # 2-d model
    xy = numpy.array( [[0.1,0.2],[-0.4,0.33],[0.5,-0.61],[0.23,0.9],[-0.7,-0.2],[2.0,3.0]] )
    for shape, p in ( ( 1, [1.7,0.13,-0.2,1.1] ), ( 2, [1.7,0.13,-0.2,1.3,0.8] ), ( 3, [1.7,0.13,-0.2,1.3,0.8,0.4] ) ) :
        p = numpy.array( p )
        def rad( xy, p ) :
            u, v = xy[:,0] - p[1], xy[:,1] - p[2]
            if shape == 1 : return numpy.hypot( u / p[3], v / p[3] )
            if shape == 2 : return numpy.hypot( u / p[3], v / p[4] )
            c, s = numpy.cos( p[5] ), numpy.sin( p[5] )
            return None if shape == 3 and ROT is None else numpy.hypot( *ROT( u, v, p, c, s ) )
        f = lambda xy, p : p[0] * kref( name, rad( xy, p ) )
        for m in ( B.Kernel2dModel( kernel=k, shape=shape ), B.Kernel2dModel( kernel=k, shape=shape ).copy() ) :
            ctx.eq( '2-d number of parameters', m.npars, len( p ) )
            ctx.near( '2-d result', m.result( xy, p.copy() ), f( xy, p ), 1e-7, 1e-7, 'shape %d' % shape )
            pt = m.partial( xy, p.copy() )
            for j in range( len( p ) ) :
                d = numpy.zeros( len( p ) )
                d[j] = 1e-5
                ctx.near( '2-d partial', pt[:,j], ( f( xy, p + d ) - f( xy, p - d ) ) / 2e-5, 1e-5, 1e-5, 'shape %d parameter %d' % ( shape, j ) )
            dv = m.derivative( xy, p.copy() )
            for j in range( 2 ) :
                d = numpy.zeros( 2 )
                d[j] = h
                ctx.near( '2-d derivative', dv[:,j], ( f( xy + d, p ) - f( xy - d, p ) ) / ( 2 * h ), 1e-5, 1e-5, 'shape %d axis %d' % ( shape, j ) )
            c = numpy.array( [[p[1],p[2]]] )
            ctx.near( '2-d value in the center', m.result( c, p.copy() ), [p[0]], 1e-10 )
            ctx.true( '2-d derivatives finite in the center', numpy.all( numpy.isfinite( m.derivative( c, p.copy() ) ) ) and numpy.all( numpy.isfinite( m.partial( c, p.copy() ) ) ), 'shape %d' % shape )
            if name not in ( 'Triangle','Tophat1' ) : ctx.near( '2-d derivative in the center', m.derivative( c, p.copy() ), [[0.0,0.0]], 0, 1e-9, 'shape %d' % shape )

def ROT( u, v, p, c, s ) :
    return ( u * c - v * s ) / p[3], ( u * s + v * c ) / p[4]

# ---- splines ------------------------------------------------------------------
def grid( kn, n=7 ) :
    """ points within each interval """
    return [a + ( b - a ) * ( numpy.arange( n ) + 0.5 ) / n for a, b in zip( kn[:-1], kn[1:] )]

def columns( m, x ) :
    out = []
    for k in range( m.npars ) :
        p = numpy.zeros( m.npars )
        p[k] = 1.0
        out += [m.result( x, p )]
    return numpy.array( out ).T

def generic( m, x, ctx, inner ) :
    """ result linear in the parameters ; partial == columns ; derivative == slope of the pieces """
    col = columns( m, x )
    p = numpy.array( [( -1 ) ** k * ( 0.4 + 0.13 * k ) for k in range( m.npars )] )
    sc = 1 + numpy.max( numpy.abs( col ) )
    ctx.near( 'linear in the parameters', m.result( x, p ), col @ p, 1e-9, 1e-10 * sc )
    ctx.near( 'partial', m.partial( x, p ), col, 1e-9, 1e-10 * sc )
    h = 1e-4 * ( x[-1] - x[0] )
    num = ( m.result( inner + h, p ) - m.result( inner - h, p ) ) / ( 2 * h )
    ctx.near( 'derivative', m.derivative( inner, p ), num, 1e-4, 1e-5 * sc )
    ctx.near( 'one point at a time', numpy.array( [m.result( numpy.array( [v] ), p )[0] for v in x] ), m.result( x, p ), 1e-10, 1e-11 * sc )
    q = numpy.argsort( numpy.sin( 3.0 * numpy.arange( len( x ) ) ) )
    ctx.near( 'order of points', m.result( x[q], p ), m.result( x, p )[q], 1e-10, 1e-11 * sc )
    c = m.copy()
    ctx.near( 'copy', c.result( x, p ), m.result( x, p ), 0, 0 )

def truncated( x, o, kn ) :
    """ powers below the order, then differences of truncated powers """
    t = [x ** o] + [numpy.where( x >= k, ( x - k ) ** o, 0.0 ) for k in kn[1:-1]]
    return [x ** k for k in range( o )] + [a - b for a, b in zip( t[:-1], t[1:] )] + [t[-1]]

def splines( case, ctx ) :
    o, kn = case['o'], numpy.array( KNOTS[case['k']] )
    x = numpy.sort( numpy.concatenate( grid( kn ) + [kn] ) )
    inner = numpy.concatenate( [g[1:-1] for g in grid( kn )] )
    m = B.SplinesModel( knots=kn, order=o )
    ctx.eq( 'number of parameters', m.npars, o + len( kn ) - 1 )
    if m.npars != o + len( kn ) - 1 : return
    ref = truncated( x, o, kn )
    col = columns( m, x )
    sc = 1 + numpy.max( numpy.abs( ref ), axis=1 )
    ctx.near( 'truncated powers', col / sc, numpy.array( ref ).T / sc, 1e-10, 1e-11 )
    generic( m, x, ctx, inner )
    lay = B.SplinesModel( nrknots=len( kn ), order=o, min=kn[0], max=kn[-1] )
    ctx.near( 'automatic knots', lay.knots, numpy.linspace( kn[0], kn[-1], len( kn ) ), 1e-12 )
    lay = B.SplinesModel( nrknots=len( kn ), order=o, xrange=x[::-1] )
    ctx.near( 'automatic knots', lay.knots, numpy.linspace( kn[0], kn[-1], len( kn ) ), 1e-12 )

def bsplines( case, ctx ) :
    o, kn = case['o'], numpy.array( KNOTS[case['k']] )
    if o == 0 :
        x = numpy.concatenate( grid( kn ) )
    else :
        x = numpy.sort( numpy.concatenate( grid( kn ) + [kn] ) )
    m = B.BSplinesModel( knots=kn, order=o )
    n = o + len( kn ) - 1
    ctx.eq( 'number of parameters', m.npars, n )
    if m.npars != n : return
    t = numpy.concatenate( [[kn[0]] * o, kn, [kn[-1]] * o] )
    col = columns( m, x )
    ref = numpy.array( [numpy.nan_to_num( BSpline( t, numpy.eye( n )[k], o, extrapolate=True )( x ) ) for k in range( n )] ).T
    ctx.near( 'Cox-de Boor', col, ref, 1e-10, 1e-11 )
    ctx.near( 'sums to one', m.result( x, numpy.ones( n ) ), numpy.ones( len( x ) ), 1e-11 )
    inner = numpy.concatenate( [g[1:-1] for g in grid( kn )] )
    generic( m, x, ctx, inner )

def pieces( m, kn, o, k ) :
    """ polynomial of basis function k in each interval ( local coordinate 0..1 ) """
    p = numpy.zeros( m.npars )
    p[k] = 1.0
    out = []
    for a, b in zip( kn[:-1], kn[1:] ) :
        t = ( numpy.arange( o + 4 ) + 0.5 ) / ( o + 4 )
        y = m.result( a + ( b - a ) * t, p )
        c = numpy.polynomial.polynomial.polyfit( t, y, o )
        out += [( c, numpy.max( numpy.abs( numpy.polynomial.polynomial.polyval( t, c ) - y ) ) )]
    return out

def basic( case, ctx, border ) :
    o, kn = case['o'], numpy.array( KNOTS[case['k']] )
    nk = len( kn )
    if border and ( nk < o + 3 ) : return           # periodic blobs would overlap themselves
    m = B.BasicSplinesModel( knots=kn, order=o, border=border )
    n = nk - 1 if border else nk + o - 1
    ctx.eq( 'number of parameters', m.npars, n )
    if m.npars != n : return
    x = numpy.concatenate( grid( kn ) )
    ctx.near( 'sums to one', m.result( x, numpy.ones( n ) ), numpy.ones( len( x ) ), 1e-7, 0 )
    col = columns( m, x )
    sv = numpy.linalg.svd( col, compute_uv=False )
    ctx.true( 'independent', sv[-1] > 1e-9 * sv[0], sv )
    P = numpy.polynomial.polynomial
    for k in range( n ) :
        pc = pieces( m, kn, o, k )
        sc = max( numpy.max( numpy.abs( c ) ) for c, e in pc )
        ctx.true( 'polynomial between the knots', max( e for c, e in pc ) < 1e-8 * sc, 'basis %d' % k )
        nz = [i for i, ( c, e ) in enumerate( pc ) if numpy.max( numpy.abs( c ) ) > 1e-9 * sc]
        run = nz == list( range( nz[0], nz[-1] + 1 ) ) or ( border and any( sorted( ( i + s ) % ( nk - 1 ) for i in nz ) == list( range( len( nz ) ) ) for s in range( nk ) ) )
        ctx.true( 'limited support', len( nz ) <= o + 1 and run, 'basis %d intervals %s' % ( k, nz ) )
        pairs = [( i, i + 1 ) for i in range( nk - 2 )] + ( [( nk - 2, 0 )] if border else [] )
        for i, j in pairs :
            di, dj = kn[i+1] - kn[i], kn[j+1] - kn[j]
            ci, cj = pc[i][0], pc[j][0]
            for d in range( o ) :
                a = P.polyval( 1.0, P.polyder( ci, d ) ) / di ** d
                b = P.polyval( 0.0, P.polyder( cj, d ) ) / dj ** d
                lim = 1e-6 * sc * math.factorial( o ) / min( di, dj ) ** d
                ctx.true( 'continuous at the knots', abs( a - b ) < lim, 'basis %d knot %d derivative %d : %g %g' % ( k, j, d, a, b ) )
    xx = numpy.sort( numpy.concatenate( [x, kn] ) ) if o > 0 else x
    generic( m, xx, ctx, numpy.concatenate( [g[1:-1] for g in grid( kn )] ) )

def surface( case, ctx ) :
    o = case['o']
    kn = [numpy.array( KNOTS[k] ) for k in case['k']]
    m = B.SurfaceSplinesModel( kn, order=o )
    np = [a + len( k ) - 1 for a, k in zip( o, kn )]
    ctx.eq( 'number of parameters', m.npars, np[0] * np[1] )
    if m.npars != np[0] * np[1] : return
    x = numpy.array( [[a,b] for a in numpy.concatenate( grid( kn[0], 3 ) ) for b in numpy.concatenate( grid( kn[1], 3 ) )] )
    ra, rb = truncated( x[:,0], o[0], kn[0] ), truncated( x[:,1], o[1], kn[1] )
    ref = numpy.array( [a * b for a in ra for b in rb] ).T
    sc = 1 + numpy.max( numpy.abs( ref ), axis=0 )
    for mm in ( m, m.copy() ) :
        ctx.near( 'product of splines', columns( mm, x ) / sc, ref / sc, 1e-10, 1e-11 )
        p = numpy.sin( numpy.arange( m.npars ) * 1.0 )
        ctx.near( 'partial', mm.partial( x, p ) / sc, ref / sc, 1e-10, 1e-11 )
        ctx.near( 'result', mm.result( x, p ), ref @ p, 1e-10, 1e-10 )

def run_case( case, ctx ) :
    t = case['t']
    if t == 'kernel' : kernel( case['k'], ctx )
    elif t == 'splines' : splines( case, ctx )
    elif t == 'bsplines' : bsplines( case, ctx )
    elif t == 'basic' : basic( case, ctx, 0 )
    elif t == 'periodic' : basic( case, ctx, 1 )
    elif t == 'surface' : surface( case, ctx )
    ctx.outcome( case['key'] )
