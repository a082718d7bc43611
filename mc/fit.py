""" linear fit problems, reference solution and operation alphabet shared by C14 and C15 """
import numpy, math, itertools
import BayesicFitting as B

def A( *a ) : return numpy.array( a, dtype=float )

def lim( m, lo=-10., hi=10. ) :
    m.setLimits( lo, hi )
    return m

def poly( n, **kw ) : return B.PolynomialModel( n, **kw )

def comp() :
    m = poly( 1 )
    m += B.SineAmpModel( 0.2 )
    return m

def compb() :                                   # brackets: line + { parabola - harmonic }
    s = B.PowerModel( 2 )
    s -= B.SineAmpModel( 0.15 )
    m = poly( 1 )
    m += s
    return m

def prodfix() :                                 # ( a + bx ) * ( 2 + 0.1 x )
    m = poly( 1 )
    m *= poly( 1, fixed={0:2.0,1:0.1} )
    return m

def null() : return poly( 1, fixed={0:0.3,1:-0.1} )

X1 = A( -3.0, -2.0, -1.2, -0.5, 0.3, 1.0, 1.8, 2.5, 3.1 )
X2 = numpy.array( [[i,j] for i in ( -1.0, 0.0, 1.5 ) for j in ( -0.5, 0.6, 2.0 )] )
IM = numpy.zeros( ( 3, 3 ) )
IMX = numpy.array( [[i,j] for i in range( 3 ) for j in range( 3 )], dtype=float )

PROB = {                # model maker, xdata, xdata as the model sees it, map
 'p0'    : ( lambda : poly( 0 ), X1, X1, False ),
 'p1'    : ( lambda : poly( 1 ), X1, X1, False ),
 'p2'    : ( lambda : poly( 2 ), X1, X1, False ),
 'p2fix' : ( lambda : poly( 2, fixed={1:0.4} ), X1, X1, False ),
 'comp'  : ( comp, X1, X1, False ),
 'compb' : ( compb, X1, X1, False ),
 'prod'  : ( prodfix, X1, X1, False ),
 'bspl'  : ( lambda : B.BSplinesModel( knots=[-4.,-1.,1.,4.], order=1 ), X1, X1, False ),
 'surf'  : ( lambda : B.PolySurfaceModel( 1 ), X2, X2, False ),
 'map'   : ( lambda : B.PolySurfaceModel( 1 ), IM, IMX, True ),
 'null'  : ( null, X1, X1, False ),
}
YS = [A( 1.2, -0.4, 0.7, 2.5, -1.0, 0.4, 1.9, -0.2, 3.0 ), A( 0.0, 1.0, 0.5, -2.0, -1.5, 3.0, 2.0, 1.0, 5.5 )]
WS = { 'w0' : None, 'wa' : A( 1, 2, 0, 1, 0.5, 3, 1, 1, 2 ), 'wi' : numpy.array( [1, 2, 1, 1, 3, 1, 1, 2, 1] ) }
AS = { 'a0' : None, 'as' : 0.5, 'aa' : A( 0.5, 1, 2, 1, 0.4, 0.7, 1, 1.5, 0.9 ) }

def keeps( np ) :
    ks = { 'k0' : None }
    if np > 1 : ks.update( { 'kf' : { 0 : 0.7 }, 'kl' : { np-1 : -0.3 }, 'kz' : {} } )
    if np > 2 : ks.update( { 'k2' : { np-1 : 0.2, 0 : 1.1 } } )
    return ks

def norms( np, k ) :
    """ k-th normalisation: list of ( row, value, weight ) """
    r = numpy.ones( np ) if k == 0 else numpy.arange( np, dtype=float ) - 0.5
    return ( r, 1.0 + 2 * k, 3.0 - k )

class Ref( object ) :
    """ weighted linear least squares by direct construction """
    def __init__( self, name ) :
        mk, self.x, self.mx, self.map = PROB[name]
        self.mk = mk
        m = mk()
        self.np = m.npchain
        z = numpy.zeros( self.np )
        self.base = m.result( self.mx, z )
        self.D = numpy.zeros( ( len( self.mx ), self.np ) )
        for k in range( self.np ) :
            e = z.copy(); e[k] = 1.0
            self.D[:,k] = m.result( self.mx, e ) - self.base

    def design( self, nrm=() ) :
        return numpy.vstack( [self.D] + [n[0] for n in nrm] ) if len( nrm ) else self.D

    def solve( self, y, w, a, keep, nrm=() ) :
        N = len( y )
        w = numpy.ones( N ) if w is None else numpy.asarray( w, dtype=float )
        acc = numpy.ones( N ) * ( 1.0 if a is None else a )
        fw = w / acc ** 2
        D = self.design( nrm )
        wx = numpy.append( fw, [n[2] for n in nrm] )
        yy = numpy.append( y - self.base, [n[1] for n in nrm] )
        keep = keep or {}
        p = numpy.zeros( self.np )
        for k in keep : p[k] = keep[k]
        fi = [k for k in range( self.np ) if k not in keep]
        s = numpy.sqrt( wx )
        if len( fi ) :
            r = ( yy - D @ p ) * s
            p[fi] = numpy.linalg.lstsq( D[:,fi] * s[:,None], r, rcond=None )[0]
        yf = self.base + self.D @ p
        chi = numpy.sum( fw * ( y - yf ) ** 2 )
        H = ( D[:,fi] * wx[:,None] ).T @ D[:,fi]
        slacc = numpy.sum( w * numpy.log( acc ) )
        return dict( p=p, fi=fi, yfit=yf, chi=chi, H=H, sumw=numpy.sum( w ), slacc=slacc, fw=fw )
