""" C25 RobustShell against an independent reweighting iteration """
import numpy, math, itertools
import BayesicFitting as B
from BayesicFitting.source.kernels import *
from BayesicFitting.source.kernels.Biweight import Biweight
from BayesicFitting.source.kernels.CosSquare import CosSquare
from BayesicFitting.source.kernels.Cosine import Cosine
from BayesicFitting.source.kernels.Gauss import Gauss
from BayesicFitting.source.kernels.Huber import Huber
from BayesicFitting.source.kernels.Lorentz import Lorentz
from BayesicFitting.source.kernels.Parabola import Parabola
from BayesicFitting.source.kernels.Triangle import Triangle
from BayesicFitting.source.kernels.Tricube import Tricube
from BayesicFitting.source.kernels.Triweight import Triweight
from BayesicFitting.source.kernels.Uniform import Uniform
from BayesicFitting.source.RobustShell import RobustShell

LEVEL = 'model_checking'
RULE = ( 'all sets of up to 2 (thorough 3) outliers of either sign in 11 data x kernels x one- and two-sided x weights x domains x fitters x call histories; every inner fit, weight, scale, stop and result in step with an '
         'independent iteration (own kernels, normal equations, noise scale)' )
ASSUME = ['one and two parameter linear models (nonlinear fitter: against its own linear solution within its tolerance)']
BOUNDS = { 'quick' : 'up to 2 outliers', 'thorough' : 'up to 3 outliers, 7 parameter sets' }
BUDGET = { 'quick' : 100, 'thorough' : 800 }

def cut( f ) : return lambda d : numpy.where( numpy.abs( d ) <= 1, f( numpy.minimum( numpy.abs( d ), 1.0 ) ), 0.0 )
KER = { 'Biweight' : ( cut( lambda a : ( 1 - a * a ) ** 2 ), 2 * math.sqrt( 1 - math.sqrt( 0.5 ) ) ),
        'CosSquare' : ( cut( lambda a : numpy.cos( 0.5 * math.pi * a ) ** 2 ), 1.0 ),
        'Tricube' : ( cut( lambda a : ( 1 - a ** 3 ) ** 3 ), 2 * ( 1 - 0.5 ** ( 1 / 3. ) ) ** ( 1 / 3. ) ),
        'Triweight' : ( cut( lambda a : ( 1 - a * a ) ** 3 ), 2 * math.sqrt( 1 - 0.5 ** ( 1 / 3. ) ) ),
        'Uniform' : ( cut( lambda a : 1.0 + 0 * a ), 2.0 ),
        'Cosine' : ( cut( lambda a : numpy.cos( 0.5 * math.pi * a ) ), 4 / 3. ),
        'Triangle' : ( cut( lambda a : 1 - a ), 1.0 ),
        'Parabola' : ( cut( lambda a : 1 - a * a ), 2 * math.sqrt( 0.5 ) ),
        'Huber' : ( lambda d : 1 / numpy.maximum( 1.0, numpy.abs( d ) ), 4.0 ),
        'Gauss' : ( lambda d : numpy.exp( -0.5 * d * d ), 2 * math.sqrt( 2 * math.log( 2.0 ) ) ),
        'Lorentz' : ( lambda d : 1 / ( 1 + d * d ), 2.0 ) }
X = numpy.arange( 11 ) * 0.1
NOISE = numpy.array( [0.3,-0.5,0.1,0.8,-0.9,0.2,-0.3,0.6,-0.7,0.4,0.05] ) * 0.1
WG = numpy.array( [1.0,2.0,0.5,1.5,1.0,3.0,0.7,1.0,2.0,1.2,0.8] )

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for k in KER :
        for one in ( None, 'p', 'n' ) :
            for w in ( 0, 1 ) :
                for dom in ( None, 4.0 ) :
                    out += [{ 'key' : 'fit.%s.%s.%d.%s' % ( k, one, w, dom ), 't' : 'F', 'a' : [k, one, w, dom], 'nout' : 3 if full else 2 }]
    for k in ( 'Biweight','Uniform','Huber','Lorentz' ) :
        for f in ( 'LM','Curve','QR' ) : out += [{ 'key' : 'fitter.%s.%s' % ( k, f ), 't' : 'N', 'a' : [k, f], 'nout' : 2 if full else 1 }]
    out += [{ 'key' : 'clean.%s' % k, 't' : 'C', 'a' : [k] } for k in KER]
    out += [{ 'key' : 'calls.%d' % i, 't' : 'H', 'a' : [i] } for i in range( 4 )]
    out += [{ 'key' : 'special.%s' % s, 't' : 'X', 'a' : [s] } for s in ( 'function','instance','maxiter','bad','keep','str' )]
    return out

def run_case( case, ctx ) : globals()['do' + case['t']]( ctx, case, *case['a'] )

def wls( A, y, w ) :
    s = numpy.sqrt( w )
    p = numpy.linalg.lstsq( A * s[:,None], y * s, rcond=None )[0]
    r = y - A @ p
    return p, float( numpy.sum( w * r * r ) )

def iterate( A, y, w, kf, dom, one, tol=0.0001, maxiter=1000 ) :
    """ own iteration """
    u = numpy.ones_like( y ) if w is None else w
    npar = A.shape[1]
    p, chi = wls( A, y, u )
    sw = u.sum()
    hist = [( u.copy(), p )]
    it = 0
    close = False
    while it < maxiter :
        sc = math.sqrt( chi / ( sw - npar ) )
        d = ( y - A @ p ) / ( sc * dom )
        k = kf( d )
        if one == 'p' : k = numpy.where( d < 0, 1.0, k )
        if one == 'n' : k = numpy.where( d > 0, 1.0, k )
        rw = k * u
        if rw.sum() - npar <= 0.05 or ( rw > 1e-3 ).sum() <= npar : return None
        p, c2 = wls( A, y, rw )
        sw = rw.sum()
        hist += [( rw, p )]
        t = tol if c2 < 1 else tol * c2
        dd = abs( abs( chi - c2 ) - t )
        if dd < 1e-9 : close = True                    # rounding decides about another iteration
        if abs( chi - c2 ) < t : break
        chi = c2
        it += 1
    return p, c2, rw, hist, it, close, sc

class Watch( object ) :
    """ record the fits asked for """
    def __init__( self, ftr ) :
        self.org, self.calls = ftr.fit, []
        ftr.fit = self
    def __call__( self, data, weights=None, **kw ) :
        w = None if weights is None else numpy.array( weights, dtype=float )
        p = self.org( data, weights, **kw )
        self.calls += [( w, numpy.array( p ) )]
        return p

def datasets( nout, noise=NOISE ) :
    for n in range( nout + 1 ) :
        for pos in itertools.combinations( range( len( X ) ), n ) :
            for sg in itertools.product( ( 1, -1 ), repeat=n ) if n < 3 else ( ( 1, 1, -1 ), ( 1, 1, 1 ) ) :
                y = 1.0 - 0.7 * X + noise
                for a, s in zip( pos, sg ) : y[a] += s * ( 3.0 + 0.5 * a )
                yield ( pos, sg ), y

def doF( ctx, case, kern, one, w, dom ) :
    kf, fw = KER[kern]
    wt = WG if w else None
    A = numpy.array( [numpy.ones_like( X ), X] ).T
    nskip = 0
    for lab, y in datasets( case['nout'] ) :
        ref = iterate( A, y, wt, kf, dom if dom else 6.0 / fw, one )
        if ref is None :
            nskip += 1
            continue
        m = B.PolynomialModel( 1 )
        f = B.Fitter( X, m )
        wa = Watch( f )
        y0, w0 = y.copy(), None if wt is None else wt.copy()
        rs = RobustShell( f, kernel=globals()[kern], domain=dom, onesided={ 'p' : 'positive', 'n' : 'negative', None : None }[one], verbose=0 )
        p = rs.fit( y0, weights=w0 )
        compare( ctx, rs, f, wa, p, A, y, kf, dom if dom else 6.0 / fw, one, wt, '%s' % ( lab, ) )
        ctx.true( 'input', numpy.array_equal( y0, y ) and ( wt is None or numpy.array_equal( w0, wt ) ), str( lab ) )
        if w0 is not None : ctx.true( 'weights-alias', rs.weights is not w0, str( lab ) )
        ctx.trans( len( wa.calls ) )
        ctx.outcome( tuple( numpy.round( p, 4 ) ) )
    ctx.trace()
    if nskip : ctx.note( 'skipped %d data sets left without enough weight' % nskip )

def compare( ctx, rs, f, wa, p, A, y, kf, dom, one, wt, lab, tol=0.0001, maxiter=1000 ) :
    """ each step of the iteration from the one before """
    u = numpy.ones_like( y ) if wt is None else wt
    chi, prev = None, None
    stop = False
    for k, ( w, q ) in enumerate( wa.calls ) :
        l = '%s iteration %d' % ( lab, k )
        ctx.true( 'goes-on', not stop, l )
        if k == 0 :
            ctx.true( 'first-weights', ( w is None ) == ( wt is None ) and ( w is None or numpy.array_equal( w, wt ) ), lab )
            ww = u
        else :
            ww = w
            pw, pq = prev
            r = y - A @ pq
            sc = math.sqrt( numpy.sum( pw * r * r ) / ( pw.sum() - A.shape[1] ) )
            kd = kf( r / ( sc * dom ) )
            if one == 'p' : kd = numpy.where( r < 0, 1.0, kd )
            if one == 'n' : kd = numpy.where( r > 0, 1.0, kd )
            ctx.near( 'weights', w, kd * u, 1e-7, 1e-7, l )
        bp, bc = wls( A, y, ww )
        ctx.near( 'parameters', q, bp, 1e-8, 1e-8, l )
        if k > 0 :
            t = tol if bc < 1 else tol * bc
            if abs( abs( chi - bc ) - t ) > 1e-9 : stop = abs( chi - bc ) < t or k > maxiter
            else : stop = False if k + 1 < len( wa.calls ) else True
        chi, prev = bc, ( ww, q )
        ctx.ev( 1 )
    ctx.true( 'stopped', stop or len( wa.calls ) == maxiter + 1, '%s: stopped too early, after %d fits' % ( lab, len( wa.calls ) ) )
    ctx.near( 'result', p, wa.calls[-1][1], 0, 0, lab )
    ctx.near( 'final-weights', rs.weights, wa.calls[-1][0], 0, 0, lab )
    ctx.near( 'chisq', rs.chisq, chi, 1e-8, 1e-12, lab )
    ctx.near( 'fitter-chisq', f.chisq, chi, 1e-8, 1e-12, lab )
    ctx.near( 'model', f.model.parameters, wa.calls[-1][1], 0, 0, lab )

def doN( ctx, case, kern, fit ) :
    """ other fitters: the inner fits minimise the weighted sum; the weights follow the previous fit """
    kf, fw = KER[kern]
    A = numpy.array( [numpy.ones_like( X ), X] ).T
    for lab, y in datasets( case['nout'] ) :
        for wt in ( None, WG ) :
            ref = iterate( A, y, wt, kf, 6.0 / fw, None )
            if ref is None : continue
            m = B.PolynomialModel( 1 )
            m.parameters = [0.8, -0.5]
            f = { 'LM' : B.LevenbergMarquardtFitter, 'Curve' : B.CurveFitter, 'QR' : B.QRFitter }[fit]( X, m )
            wa = Watch( f )
            rs = RobustShell( f, kernel=globals()[kern](), verbose=0 )
            p = rs.fit( y, weights=wt )
            u = numpy.ones_like( y ) if wt is None else wt
            for k, ( w, q ) in enumerate( wa.calls ) :
                ww = u if w is None else w
                best, chi = wls( A, y, ww )
                if fit == 'LM' :       # stops when chisq changes less than its tolerance of 0.01
                    r = y - A @ q
                    ctx.true( 'minimum', numpy.sum( ww * r * r ) <= chi + 0.01 * ( 1 + chi ), '%s %d' % ( lab, k ) )
                else :
                    ctx.near( 'minimum', q, best, 1e-2, 1e-2, '%s %d' % ( lab, k ) )
                if k > 0 :
                    pw, pq = wa.calls[k-1]
                    pw = u if pw is None else pw
                    r = y - A @ pq
                    sc = math.sqrt( numpy.sum( pw * r * r ) / ( pw.sum() - 2 ) )
                    ctx.near( 'weights', w, kf( r * fw / ( 6 * sc ) ) * u, 1e-3, 2e-3, '%s %d' % ( lab, k ) )
                ctx.ev( 1 )
            ctx.near( 'result', p, wa.calls[-1][1], 0, 0 )
            ctx.trans( len( wa.calls ) )
            ctx.outcome( tuple( numpy.round( p, 3 ) ) )
    ctx.trace()

def doC( ctx, case, kern ) :
    """ outliers far off do not influence the result of redescending kernels; without outliers nothing much happens """
    kf, fw = KER[kern]
    A = numpy.array( [numpy.ones_like( X ), X] ).T
    for pos in itertools.combinations( range( len( X ) ), 1 ) :
        for s in ( 1, -1 ) :
            y = 1.0 - 0.7 * X + NOISE
            y[pos[0]] += 40 * s
            rs = RobustShell( B.Fitter( X, B.PolynomialModel( 1 ) ), kernel=globals()[kern], domain=None, verbose=0 )
            ref = iterate( A, y, None, kf, 6.0 / fw, None )
            if ref is None : continue
            p = rs.fit( y )
            if not ref[5] : ctx.near( 'result', p, ref[0], 1e-6, 1e-6, str( pos ) )
            w = rs.weights
            ctx.true( 'range', numpy.all( w >= 0 ) and numpy.all( w <= 1 ), str( w ) )
            ctx.true( 'outlier-least', w[pos[0]] == w.min(), '%s %s' % ( pos, w ) )
            ctx.ev( 1 )
            ctx.outcome( pos )
            ctx.trans()
    ctx.trace()

def doH( ctx, case, i ) :
    """ histories of calls with kernels, domains and sides per call """
    A = numpy.array( [numpy.ones_like( X ), X] ).T
    calls = [dict(), dict( kernel=Huber ), dict( domain=3.5 ), dict( onesided='p' ), dict( kernel=Lorentz(), domain=2.0, onesided='n' ), dict( weights=WG )]
    y = 1.0 - 0.7 * X + NOISE
    y[3] += 2.0
    y[7] -= 1.5
    for seq in itertools.product( calls, repeat=3 ) :
        kern0, dom0, one0 = [( 'Biweight', None, None ), ( 'Gauss', 2.5, None ), ( 'Lorentz', None, 'p' ), ( 'Huber', 1.5, 'n' )][i]
        f = B.Fitter( X, B.PolynomialModel( 1 ) )
        rs = RobustShell( f, kernel=globals()[kern0], domain=dom0, onesided=one0, verbose=0 )
        d0 = dom0 if dom0 else 6.0 / KER[kern0][1]
        for c in seq :
            kn = { None : kern0, Huber : 'Huber' }.get( c.get( 'kernel' ), 'Lorentz' )
            ref = iterate( A, y, c.get( 'weights' ), KER[kn][0], c.get( 'domain', d0 ), c.get( 'onesided', one0 ) )
            if ref is None : break
            f.__dict__.pop( 'fit', None )
            wa = Watch( f )
            p = rs.fit( y, **c )
            compare( ctx, rs, f, wa, p, A, y, KER[kn][0], c.get( 'domain', d0 ), c.get( 'onesided', one0 ), c.get( 'weights' ), str( seq ) )
            ctx.trans()
        ctx.outcome( str( seq ) )
    ctx.trace()

def doX( ctx, case, what ) :
    A = numpy.array( [numpy.ones_like( X ), X] ).T
    y = 1.0 - 0.7 * X + NOISE
    y[3] += 2.0
    mk = lambda : B.Fitter( X, B.PolynomialModel( 1 ) )
    if what == 'function' :
        fn = lambda d : 1 / ( 1 + d ** 4 )
        for dom in ( 2.0, 5.0 ) :
            f = mk()
            wa = Watch( f )
            rs = RobustShell( f, kernel=fn, domain=dom, verbose=0 )
            p = rs.fit( y )
            compare( ctx, rs, f, wa, p, A, y, fn, dom, None, None, what )
    elif what == 'instance' :
        a = RobustShell( mk(), kernel=Gauss(), verbose=0 ).fit( y )
        ctx.near( 'instance', a, RobustShell( mk(), kernel=Gauss, verbose=0 ).fit( y ), 0, 0 )
    elif what == 'maxiter' :
        for mi in ( 1, 2, 3 ) :
            f = mk()
            wa = Watch( f )
            rs = RobustShell( f, kernel=Lorentz, verbose=0, maxIter=mi, tolerance=1e-14 )
            p = rs.fit( y )
            ctx.eq( 'fits', len( wa.calls ), mi + 1 )
            ref = iterate( A, y, None, KER['Lorentz'][0], 3.0, None, tol=1e-14, maxiter=mi )
            ctx.near( 'result', p, ref[0], 1e-6, 1e-6 )
    elif what == 'bad' :
        for kw in ( dict( kernel='Tukey' ), dict( onesided='x' ), dict( onesided=1 ) ) :
            try :
                RobustShell( mk(), verbose=0, **kw )
                ctx.bad( 'accepted', str( kw ) )
            except ValueError : pass
    elif what == 'keep' :
        for k, v in ( ( 0, 1.1 ), ( 1, -0.5 ) ) :
            f = mk()
            rs = RobustShell( f, kernel=Lorentz, verbose=0 )
            p = rs.fit( y, keep={ k : v } )
            ctx.near( 'kept', p[k] if len( p ) == 2 else f.model.parameters[k], v, 0, 0 )
            o = 1 - k
            q = f.model.parameters
            w = rs.weights
            ctx.near( 'free', q[o], numpy.sum( w * A[:,o] * ( y - v * A[:,k] ) ) / numpy.sum( w * A[:,o] ** 2 ), 1e-7, 1e-9 )
    elif what == 'str' :
        for k in KER :
            for one in ( None, 'p', 'n' ) : ctx.true( 'name', k[:4] in str( RobustShell( mk(), kernel=globals()[k], onesided=one, verbose=0 ) ), k )
    ctx.ev( 1 )
    ctx.trans()
    ctx.trace()
    ctx.outcome( what )
