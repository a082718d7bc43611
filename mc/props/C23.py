""" C23 orbits: Kepler's laws, derivatives, projections and derived quantities on a grid of all elements """
import numpy, math, itertools
import BayesicFitting as B
from BayesicFitting.source.Kepplers2ndLaw import Kepplers2ndLaw
TP = 2 * math.pi

LEVEL = 'exploration'
RULE = ( 'grids over all orbital elements and all phases of the orbit (peri- and apastron included): Kepler equation, conic section, law of areas, rotation into the sky, derivatives by Richardson differences of an '
         'independent solution by bisection' )
ASSUME = ['eccentricities of 0 to 0.95 (0.99 for the equation itself); one body']
BOUNDS = { 'quick' : '14 eccentricities x 103 phases in 3 periods x periods x phases x 4 x 4 x 4 angles', 'thorough' : 'twice as fine' }
BUDGET = { 'quick' : 100, 'thorough' : 600 }
ECC = [0.0, 1e-9, 1e-3, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95]

def cases( tier ) :
    full = tier != 'quick'
    n = 240 if full else 96
    out = []
    for e in ECC + [0.97, 0.99] :
        for P in ( 1.0, 0.37, 12.5 ) :
            for ph in ( 0.0, 1.1, 4.0, -2.0 ) : out += [{ 'key' : 'kepler.%g.%g.%g' % ( e, P, ph ), 't' : 'K', 'a' : [e, P, ph, n] }]
    for e in ECC :
        for P, ph in ( ( 1.0, 0.0 ), ( 2.5, 1.1 ), ( 0.4, 4.0 ) ) :
            out += [{ 'key' : 'deriv.%g.%g.%g' % ( e, P, ph ), 't' : 'D', 'a' : [e, P, ph, n] }]
            out += [{ 'key' : 'rv.%g.%g.%g' % ( e, P, ph ), 't' : 'V', 'a' : [e, P, ph, n] }]
            for i in ( 0.0, 0.4, 1.2, 2.5, math.pi ) + ( ( 0.9, 1.5 ) if full else () ) :
                out += [{ 'key' : 'orbit.%g.%g.%g.%.1f' % ( e, P, ph, i ), 't' : 'S', 'a' : [e, P, ph, i, n] }]
    for e in ( 0.0, 0.3, 0.8 ) :
        for Mst in ( 0.5, 1.0, 3.0 ) : out += [{ 'key' : 'mass.%g.%g' % ( e, Mst ), 't' : 'M', 'a' : [e, Mst] }]
    return out

def run_case( case, ctx ) : globals()['do' + case['t']]( ctx, case, *case['a'] )

def solve( M, e ) :
    """ bisection of M = E - e sin E """
    M = numpy.asarray( M, dtype=float )
    lo, hi = M - 1.1, M + 1.1
    for i in range( 70 ) :
        E = 0.5 * ( lo + hi )
        up = E - e * numpy.sin( E ) > M
        hi = numpy.where( up, E, hi )
        lo = numpy.where( up, lo, E )
    return 0.5 * ( lo + hi )

def refrv( x, p ) :
    """ radius and true anomaly (continuous) """
    e, a, P, ph = p[:4]
    E = solve( TP * numpy.asarray( x ) / P - ph, e )
    k = numpy.round( E / TP )
    v = numpy.arctan2( math.sqrt( 1 - e * e ) * numpy.sin( E ), numpy.cos( E ) - e ) 
    return a * ( 1 - e * numpy.cos( E ) ), v, E, v + TP * numpy.round( ( E - v ) / TP )

def phases( P, ph, n ) :
    """ times of all phases, peri- and apastron (E = pi) included, over 3 periods """
    M = numpy.arange( -n, 2 * n ) * TP / n
    M = numpy.append( M, [math.pi - 1e-6, math.pi + 1e-7, math.pi - 1e-9, math.pi - 3e-5, 3 * math.pi + 1e-6, 1e-7, -1e-6] )      # close to apastron and periastron
    return ( M + ph ) * P / TP

def ang( d ) : return numpy.abs( ( numpy.asarray( d ) + math.pi ) % TP - math.pi )

def rich( f, h ) :
    """ derivative by central differences of 6th order """
    return ( 45 * ( f( h ) - f( -h ) ) - 9 * ( f( 2 * h ) - f( -2 * h ) ) + ( f( 3 * h ) - f( -3 * h ) ) ) / ( 60 * h )

def doK( ctx, case, e, P, ph, n ) :
    a = 1.7
    p = numpy.array( [e, a, P, ph] )
    x = phases( P, ph, n )
    x0, p0 = x.copy(), p.copy()
    K = Kepplers2ndLaw()
    M = K.meanAnomaly( x, p )
    ctx.near( 'meanAnomaly', M, TP * x / P - ph, 1e-13, 1e-12 )
    E0 = solve( TP * x / P - ph, e )
    # rounding of x near perihelion blows up the anomaly at high eccentricity
    tol = 3e-8 if e <= 0.95 else 1e-6
    for m, f in ( ( '', K.eccentricAnomaly ), ( '2', K.eccentricAnomaly2 ) ) + ( ( ( '1', K.eccentricAnomaly1 ), ) if e < 0.5 else () ) + ( ( ( '0', K.eccentricAnomaly0 ), ) if e < 0.7 else () ) :
        E = f( x, p )
        ctx.near( 'eccentricAnomaly' + m, E, E0, 0, tol, 'M %s' % M[:0] )
        if m in ( '', '2' ) : ctx.near( 'kepler-equation' + m, E - e * numpy.sin( E ), M, 0, 1e-10 )
        ctx.ev( len( x ) )
    # a single moment gives the same as the whole list; also with a start value
    Ef = K.eccentricAnomaly( x, p )
    for k in range( 0, len( x ), 5 ) :
        ctx.near( 'one-by-one', K.eccentricAnomaly( x[k:k+1], p ), Ef[k:k+1], 0, tol )
    ctx.near( 'start', K.eccentricAnomaly( x, p, Estart=E0 + 1e-3 ), E0, 0, tol )
    r, v = K.radiusAndTrueAnomaly( x, p )
    rr, vv, EE, vc = refrv( x, p )
    ctx.near( 'radius', r, rr, 1e-7 if e <= 0.95 else 1e-4, 0 )
    ctx.near( 'anomaly', ang( v - vv ), numpy.zeros_like( v ), 0, 40 * tol )
    ctx.near( 'conic', r * ( 1 + e * numpy.cos( v ) ), numpy.full_like( r, a * ( 1 - e * e ) ), 1e-7 if e <= 0.95 else 1e-4, 1e-9 )
    ctx.near( 'sine', K.sinE, numpy.sin( K.eccAnomaly ), 0, 3e-8 if e <= 0.95 else 1e-6 )
    # law of areas
    if e <= 0.8 :
        h = 1e-4 * P
        dv = rich( lambda d : refrv( x + d, p )[3], h )
        ctx.near( 'areas', r * r * dv, numpy.full_like( r, TP / P * a * a * math.sqrt( 1 - e * e ) ), 1e-5, 0 )
    ctx.true( 'input', numpy.array_equal( x, x0 ) and numpy.array_equal( p, p0 ), 'input changed' )
    ctx.trans( len( x ) )
    ctx.trace()
    ctx.outcome( ( e, P, ph ) )

def doD( ctx, case, e, P, ph, n ) :
    a = 1.7
    p = numpy.array( [e, a, P, ph] )
    x = phases( P, ph, n )
    K = Kepplers2ndLaw()
    r, v = K.radiusAndTrueAnomaly( x, p )
    E, c, s = K.eccAnomaly, numpy.cos( solve( TP * x / P - ph, e ) ), numpy.sin( solve( TP * x / P - ph, e ) )
    def num( fn, k, h ) :
        def g( d ) :
            q = p.copy()
            q[k] += d
            return fn( refrv( x, q ) )
        return rich( g, h )
    q = math.sqrt( 1 - e * e )
    rt, at = 1e-6, 1e-6
    dE = 1 / ( 1 - e * c )
    ctx.near( 'dEdM', K.dEdM( x, p, c ), dE, 1e-10, 0 )
    ctx.near( 'dMdx', K.dMdx( x, p ), numpy.full_like( x, TP / P ), 1e-13, 0 )
    ctx.near( 'dEdx', K.dEdx( x, p, c ), dE * TP / P, 1e-10, 0 )
    dMdP, dMdp = K.dMdpar( x, p )
    ctx.near( 'dMdP', dMdP, -TP * x / P ** 2, 1e-12, 1e-12 )
    ctx.near( 'dMdp', dMdp, -1.0, 1e-13, 0 )
    Ee, EP, Ep = K.dEdpar( x, p, c, s )
    ctx.near( 'dEde', Ee, s * dE, 1e-9, 1e-10 )
    ctx.near( 'dEdP', EP, dE * dMdP, 1e-9, 1e-10 )
    ctx.near( 'dEdp', Ep, -dE, 1e-9, 1e-10 )
    # dr/dE = a e sinE ; dv/dE = sqrt(1-e2) / ( 1 - e cosE )
    dr, dv = K.drvdE( x, p, c, s )
    ctx.near( 'drdE', dr, a * e * s, 1e-9, 1e-10 )
    ctx.near( 'dvdE', dv, q * dE, 1e-6, 1e-9 )
    dr, dv = K.drvdx( x, p, c, s )
    ctx.near( 'drdx', dr, a * e * s * dE * TP / P, 1e-8, 1e-9 )
    ctx.near( 'dvdx', dv, q * dE * dE * TP / P, 1e-6, 1e-9 )
    re, ra, rP, rp, ve, vP, vp = K.drvdpar( x, p, E, c, s )
    # v( e, E ) : dv/de at constant M = sinE ( 2 - e2 - e cosE ) / ( q ( 1 - e cosE )^2 )
    ctx.near( 'drde', re, a * ( e - c ) * dE, 1e-7, 1e-8 )
    ctx.near( 'drda', ra, 1 - e * c, 1e-9, 0 )
    ctx.near( 'drdP', rP, a * e * s * dE * dMdP, 1e-8, 1e-8 )
    ctx.near( 'drdp', rp, -a * e * s * dE, 1e-8, 1e-8 )
    ctx.near( 'dvde', ve, s * ( 2 - e * e - e * c ) / ( q * ( 1 - e * c ) ** 2 ), 1e-6, 2e-6 )
    ctx.near( 'dvdP', vP, q * dE * dE * dMdP, 1e-6, 1e-7 )
    ctx.near( 'dvdp', vp, -q * dE * dE, 1e-6, 1e-7 )
    if 0.01 < e < 0.85 :      # the formulas above against differences
        ctx.near( 'formula-dvde', num( lambda t : t[3], 0, 1e-4 ), s * ( 2 - e * e - e * c ) / ( q * ( 1 - e * c ) ** 2 ), 1e-4, 1e-4 )
        ctx.near( 'formula-drde', num( lambda t : t[0], 0, 1e-4 ), a * ( e - c ) * dE, 1e-4, 1e-4 )
    ctx.ev( 20 * len( x ) )
    ctx.trans( len( x ) )
    ctx.trace()
    ctx.outcome( ( e, P, ph ) )

def doV( ctx, case, e, P, ph, n ) :
    x = phases( P, ph, n )
    K = 2.3
    for om in ( 0.0, 0.7, 2.2, 3.5, 5.9 ) :
        p = numpy.array( [e, K, P, ph, om] )
        m = B.RadialVelocityModel()
        y = m.result( x, p )
        # velocity along the line of sight of an orbit with semi major axis a ( sin i included )
        a = K * P * math.sqrt( 1 - e * e ) / TP
        r, v, E, vc = refrv( x, [e, a, P, ph] )
        q = math.sqrt( 1 - e * e )
        Ed = TP / P / ( 1 - e * numpy.cos( E ) )
        Xd, Yd = -a * numpy.sin( E ) * Ed, a * q * numpy.cos( E ) * Ed
        vz = Xd * math.sin( om ) + Yd * math.cos( om )
        ctx.near( 'velocity', y, vz, 1e-6, 1e-6 * K, 'longitude %g' % om )
        ctx.near( 'periodic', m.result( x + P, p ), y, 1e-6, 1e-6 )
        ctx.near( 'phase', m.result( x + 0.3 * P, [e, K, P, ph + 0.3 * TP, om] ), y, 1e-6, 1e-6 )
        ctx.near( 'amplitude', ( y.max() - y.min() ) <= 2 * K * ( 1 + 1e-9 ), True, 0, 0 )
        dx = m.derivative( x, p )
        mu = TP * TP / P / P * a ** 3
        acc = -mu / ( r * r ) * numpy.sin( v + om )             # Newton
        ctx.near( 'derivative', dx, acc, 1e-5, 1e-5 * K / P, 'longitude %g' % om )
        m.parameters = p
        ctx.near( 'semimajoraxis', m.semimajoraxis, a, 1e-12, 0 )
        ctx.ev( len( x ) * 4 )
        ctx.trans( len( x ) )
    ctx.trace()
    ctx.outcome( ( e, P, ph ) )

def doS( ctx, case, e, P, ph, inc, n ) :
    x = phases( P, ph, n )
    a = 1.7
    for O in ( 0.0, 0.5, 2.0, 4.0 ) :
        for w in ( 0.0, 0.9, 3.0, 5.0 ) :
            p = numpy.array( [e, a, P, ph, inc, O, w] )
            r, v, E, vc = refrv( x, p )
            # orbital plane to sky: rotate periastron over w, tilt over the line of nodes, rotate nodes to position angle O
            X, Y = r * numpy.cos( v ), r * numpy.sin( v )
            c1, s1 = X * math.cos( w ) - Y * math.sin( w ), X * math.sin( w ) + Y * math.cos( w )
            s1i = s1 * math.cos( inc )
            N, Ea = c1 * math.cos( O ) - s1i * math.sin( O ), c1 * math.sin( O ) + s1i * math.cos( O )
            ms, mr = B.StellarOrbitModel( spherical=True ), B.StellarOrbitModel( spherical=False )
            ys, yr = ms.result( x, p ), mr.result( x, p )
            lab = 'O %g w %g' % ( O, w )
            ctx.near( 'distance', ys[:,0], numpy.hypot( N, Ea ), 1e-6, 1e-6, lab )
            big = numpy.hypot( N, Ea ) > 1e-3
            ctx.near( 'angle', ang( ys[:,1] - numpy.arctan2( Ea, N ) )[big], numpy.zeros( big.sum() ), 0, 1e-4, lab )
            ctx.near( 'rect-x', yr[:,0], Ea, 1e-6, 1e-6, lab )
            ctx.near( 'rect-y', yr[:,1], -N, 1e-6, 1e-6, lab )
            ctx.near( 'toRect', ms.toRect( ys ), yr, 1e-9, 1e-9, lab )
            b = ms.toSpher( yr )
            ctx.near( 'toSpher', b[:,0], ys[:,0], 1e-9, 1e-9, lab )
            ctx.near( 'toSpher-angle', ang( b[:,1] - ys[:,1] )[big], numpy.zeros( big.sum() ), 0, 1e-6, lab )
            # mirrored orbit: O and w both half a turn further
            q = p.copy()
            q[5:] += math.pi
            ctx.near( 'mirror', mr.result( x, q ), yr, 1e-7, 1e-7, lab )
            ctx.near( 'periodic', mr.result( x + P, p ), yr, 1e-5, 1e-6, lab )
            # derivative of the position: areal velocity on the sky is constant
            d = mr.derivative( x, p )
            c = math.cos( inc )
            ctx.near( 'areas', yr[:,0] * d[:,1] - yr[:,1] * d[:,0], numpy.full( len( x ), TP / P * a * a * math.sqrt( 1 - e * e ) * c ), 1e-5, 1e-6, lab )
            if abs( c ) > 0.1 :
                ds = ms.derivative( x, p )
                ctx.near( 'derivative', d[:,0], numpy.sin( ys[:,1] ) * ds[:,0] + ys[:,0] * numpy.cos( ys[:,1] ) * ds[:,1], 1e-5, 1e-5, lab )
                ctx.near( 'areas-spherical', ds[:,1] * ys[:,0] ** 2, numpy.full( len( x ), TP / P * a * a * math.sqrt( 1 - e * e ) * c ), 1e-5, 1e-6, lab )
            ctx.ev( len( x ) * 6 )
            ctx.trans()
    ctx.trace()
    ctx.outcome( ( e, P, ph, inc ) )

def doM( ctx, case, e, Mst ) :
    """ m sin i = ( P / 2 pi G )^(1/3) M^(2/3) K sqrt( 1 - e2 ), in Jupiter masses for K in m/s and P in days """
    G, Ms, Mj, day = 6.6743e-11, 1.98892e30, 1.89813e27, 86400.0
    for K, P in itertools.product( ( 1.0, 12.5, 203.0 ), ( 4.2, 365.25, 4332.6 ) ) :
        m = B.RadialVelocityModel()
        m.parameters = [e, K, P, 0.3, 1.2]
        s = math.pow( P * day / ( TP * G ), 1 / 3. ) * math.pow( Mst * Ms, 2 / 3. ) * K * math.sqrt( 1 - e * e ) / Mj
        ctx.near( 'Msini', m.getMsini( Mst ), s, 5e-3, 0, 'K %g P %g' % ( K, P ) )
        ctx.near( 'semimajoraxis', m.semimajoraxis, K * P * math.sqrt( 1 - e * e ) / TP, 1e-12, 0 )
        ctx.ev( 2 )
        ctx.trans()
        c = m.copy()
        ctx.near( 'Msini-copy', c.getMsini( Mst ), m.getMsini( Mst ), 0, 0 )
    ctx.trace()
    ctx.outcome( ( e, Mst ) )
