""" reference priors: truncated distributions from their cdf's """
import math, numpy
from scipy import special
import BayesicFitting as B
INF = math.inf

def cdf( kind, x, c, s ) :
    x = numpy.asarray( x, dtype=float )
    with numpy.errstate( all='ignore' ) :
        z = ( x - c ) / s
        if kind == 'Uniform' : return x
        if kind == 'Jeffreys' : return numpy.log( x )
        if kind in ( 'Exponential','Laplace' ) : return numpy.where( z < 0, 0.5 * numpy.exp( -abs( z ) ), 1 - 0.5 * numpy.exp( -abs( z ) ) )
        if kind == 'Gauss' : return 0.5 * special.erfc( -z / math.sqrt( 2 ) )
        if kind == 'Cauchy' : return numpy.arctan( z ) / math.pi + 0.5
    raise ValueError( kind )

def pdf( kind, x, c, s ) :
    """ derivative of cdf """
    x = numpy.asarray( x, dtype=float )
    z = ( x - c ) / s
    if kind == 'Uniform' : return numpy.ones_like( x )
    if kind == 'Jeffreys' : return 1 / x
    if kind in ( 'Exponential','Laplace' ) : return 0.5 * numpy.exp( -abs( z ) ) / s
    if kind == 'Gauss' : return numpy.exp( -0.5 * z * z ) / ( s * math.sqrt( 2 * math.pi ) )
    if kind == 'Cauchy' : return 1 / ( math.pi * s * ( 1 + z * z ) )

def inv( kind, q, c, s ) :
    q = numpy.asarray( q, dtype=float )
    with numpy.errstate( all='ignore' ) :
        if kind == 'Uniform' : return q
        if kind == 'Jeffreys' : return numpy.exp( q )
        if kind in ( 'Exponential','Laplace' ) : return c + s * numpy.where( q < 0.5, numpy.log( 2 * q ), -numpy.log( 2 - 2 * q ) )
        if kind == 'Gauss' : return c + s * math.sqrt( 2 ) * special.erfinv( 2 * q - 1 )
        if kind == 'Cauchy' : return c + s * numpy.tan( math.pi * ( q - 0.5 ) )

def dlog( kind, x, c, s ) :
    z = ( x - c ) / s
    if kind == 'Uniform' : return 0 * x
    if kind == 'Jeffreys' : return -1 / x
    if kind in ( 'Exponential','Laplace' ) : return -numpy.sign( z ) / s
    if kind == 'Gauss' : return -z / s
    if kind == 'Cauchy' : return -2 * z / ( s * ( 1 + z * z ) )

DOM = { 'Uniform' : ( -INF, INF ), 'Jeffreys' : ( 0.0, INF ), 'Exponential' : ( 0.0, INF ), 'Laplace' : ( -INF, INF ),
        'Gauss' : ( -INF, INF ), 'Cauchy' : ( -INF, INF ) }

class Ref( object ) :
    def __init__( self, kind, c=0.0, s=1.0, lo=None, hi=None, circ=False ) :
        self.kind, self.c, self.s, self.circ = kind, c, s, circ
        self.lo = DOM[kind][0] if lo is None else lo
        self.hi = DOM[kind][1] if hi is None else hi

    def key( self ) :
        return ( self.kind, self.c, self.s, self.lo, self.hi, self.circ )

    @property
    def proper( self ) :
        if self.kind in ( 'Uniform', 'Jeffreys' ) :
            return self.lo > DOM[self.kind][0] and self.hi < INF
        return True

    def lims( self ) :
        with numpy.errstate( all='ignore' ) :
            a = float( cdf( self.kind, self.lo, self.c, self.s ) )
            return a, float( cdf( self.kind, self.hi, self.c, self.s ) ) - a

    def d2u( self, d ) :
        a, r = self.lims()
        u = ( cdf( self.kind, d, self.c, self.s ) - a ) / r
        return ( u + 1 ) / 3 if self.circ else u

    def u2d( self, u ) :
        a, r = self.lims()
        if self.circ : u = ( 3 * u ) % 1
        return inv( self.kind, u * r + a, self.c, self.s )

    def density( self, d ) :
        a, r = self.lims()
        return pdf( self.kind, d, self.c, self.s ) / r

def probe( ctx, what, p, ref, lab='', full=True ) :
    """ compare real prior p with ref on everything observable """
    ok = True
    def near( w, g, e, rt=1e-9, at=1e-11 ) :
        nonlocal ok
        ok &= bool( ctx.near( what + w, g, e, rt, at, lab ) )
    def eq( w, g, e ) :
        nonlocal ok
        ok &= bool( ctx.eq( what + w, g, e, lab ) )
    eq( 'lowLimit', float( p.lowLimit ), float( ref.lo ) )
    eq( 'highLimit', float( p.highLimit ), float( ref.hi ) )
    lm = p.getLimits()
    eq( 'getLimits', ( float( lm[0] ), float( lm[1] ) ), ( float( ref.lo ), float( ref.hi ) ) )
    d0, d1 = DOM[ref.kind]
    eq( 'hasLowLimit', bool( p.hasLowLimit() ), ref.lo > d0 )
    eq( 'hasHighLimit', bool( p.hasHighLimit() ), ref.hi < d1 )
    eq( 'hasLimits', bool( p.hasLimits() ), ref.lo > d0 or ref.hi < d1 )
    eq( 'isBound', bool( p.isBound() ), ref.proper )
    eq( 'isCircular', bool( p.isCircular() ), bool( ref.circ ) )
    near( 'getRange', p.getRange(), ref.hi - ref.lo ) if math.isfinite( ref.hi - ref.lo ) else None
    # outside
    for d in ( ref.lo - 0.5, ref.hi + 0.7 ) :
        if not math.isfinite( d ) : continue
        eq( 'isOutOfLimits', bool( p.isOutOfLimits( d ) ), True )
        eq( 'stayInLimits', float( p.stayInLimits( d ) ), float( min( max( d, ref.lo ), ref.hi ) ) )
        try :
            p.checkLimit( d )
            eq( 'checkLimit', 'accepted', 'ValueError' )
        except ValueError : pass
        if ref.proper and not ref.circ :
            near( 'result outside', float( p.result( d ) ), 0.0 )
            with numpy.errstate( all='ignore' ) :
                eq( 'logResult outside', float( p.logResult( d ) ), -INF )
            if ref.kind in ( 'Laplace','Jeffreys','Uniform' ) and d != ref.c :
                eq( 'partialLog outside', bool( numpy.isnan( p.partialLog( d ) ) ), True )
                eq( 'numPartialLog outside', bool( numpy.isnan( p.numPartialLog( d ) ) ), True )
    if not ref.proper : return ok
    us = numpy.array( [0.001,0.07,0.2,0.34,0.5,0.61,0.66,0.7,0.93,0.999] )
    ds = ref.u2d( us )
    tol = 1e-7 if ref.kind != 'Uniform' else 1e-10
    for u, d in zip( us, ds ) :
        near( 'unit2Domain', float( p.unit2Domain( u ) ), d, tol, tol )
        near( 'domain2Unit', float( p.domain2Unit( d ) ), ref.d2u( d ), tol, tol )
        near( 'roundtrip', float( p.unit2Domain( p.domain2Unit( d ) ) ), d, tol, tol )
        eq( 'inside', bool( p.isOutOfLimits( d ) ), False )
        eq( 'stay inside', float( p.stayInLimits( d ) ), float( d ) )
        if not full : continue
        near( 'result', float( p.result( d ) ), ref.density( d ), tol )
        near( 'logResult', float( p.logResult( d ) ), numpy.log( ref.density( d ) ), tol )
        if abs( d - ref.c ) > 0.01 :
            near( 'partialLog', float( p.partialLog( d ) ), dlog( ref.kind, d, ref.c, ref.s ), tol )
        if not ref.circ and min( abs( d - ref.lo ), abs( d - ref.hi ) ) > 0.01 and abs( d - ref.c ) > 0.01 :
            near( 'numPartialLog', float( p.numPartialLog( d ) ), dlog( ref.kind, d, ref.c, ref.s ), 1e-4, 1e-5 )
            near( 'numPartialDomain2Unit', float( p.numPartialDomain2Unit( d ) ), ref.density( d ), 1e-4, 1e-6 )
        near( 'partialDomain2Unit', float( p.partialDomain2Unit( d ) ), ref.density( d ), tol )
    # arrays
    near( 'unit2Domain array', p.unit2Domain( us ), ds, tol, tol )
    near( 'domain2Unit array', p.domain2Unit( ds ), ref.d2u( ds ), tol, tol )
    if full :
        near( 'result array', numpy.asarray( p.result( ds ), dtype=float ) * numpy.ones( len( ds ) ), ref.density( ds ), tol )
        near( 'logResult array', numpy.asarray( p.logResult( ds ), dtype=float ) * numpy.ones( len( ds ) ), numpy.log( ref.density( ds ) ), tol )
        if not ref.circ and ( math.isfinite( ref.lo ) or math.isfinite( ref.hi ) ) :
            dm = [ref.lo - 0.5] * math.isfinite( ref.lo ) + list( ds[::3] ) + [ref.hi + 0.7] * math.isfinite( ref.hi ) + [ds[1]]
            inside = numpy.array( [ref.lo <= d <= ref.hi for d in dm] )
            ins = numpy.where( inside, dm, ds[1] )
            near( 'result mixed array', p.result( numpy.array( dm ) ), numpy.where( inside, ref.density( ins ), 0.0 ), tol )
            ctx.true( what + 'isOutOfLimits array', numpy.array_equal( p.isOutOfLimits( numpy.array( dm ) ), ~inside ), lab )
            for l in ( ref.lo, ref.hi ) :
                if math.isfinite( l ) : eq( 'limit is inside', bool( p.isOutOfLimits( l ) ), False )
        a, rng = ref.lims()
        near( 'getIntegral', float( p.getIntegral() ), rng if ref.kind in ( 'Uniform', 'Jeffreys' ) else 1.0, tol )
    # edges
    if not ref.circ :
        for u, l in ( ( 0.0, ref.lo ), ( 1.0, ref.hi ) ) :
            e = numpy.asarray( p.unit2Domain( u ), dtype=float )
            if math.isfinite( l ) and ( ref.kind in ( 'Uniform', 'Jeffreys' ) or abs( l - ref.c ) < 5 * ref.s ) : near( 'edge', float( e ), l, 1e-6, 1e-6 )
            elif not math.isfinite( l ) : ctx.true( what + 'edge finite', bool( numpy.isfinite( e ) ) and ( e > ds[-1] if u > 0 else e < ds[0] ), '%s u=%s -> %s' % ( lab, u, e ) )
    else :
        g = numpy.array( [0.01,0.11,0.3] )
        near( 'period', p.unit2Domain( g + 1 / 3 ), p.unit2Domain( g ), 1e-6, 1e-6 )
        near( 'period', p.unit2Domain( g + 2 / 3 ), p.unit2Domain( g ), 1e-6, 1e-6 )
    return ok
