""" C26 helpers: averages, images, bases, factorials, Monte Carlo errors, formatting """
import numpy, math, itertools, re
import BayesicFitting as B
from BayesicFitting.source import Tools
from BayesicFitting.source.ImageAssistant import ImageAssistant
from BayesicFitting.source.OrthonormalBasis import OrthonormalBasis
from BayesicFitting.source.LogFactorial import logFactorial
from BayesicFitting.source.MonteCarlo import MonteCarlo
from BayesicFitting.source.Formatter import formatter, fma

LEVEL = 'exploration'
RULE = 'all inputs of small finite grids (values, weights, ranges; shapes; vectors; counts; histories of calls) against direct definitions'
ASSUME = ['grids of values; the size of Monte Carlo errors only for fixed seeds, within 6 standard deviations']
BOUNDS = { 'quick' : 'lists up to 4 values, images up to rank 4, histories of 2 to 5 vectors in 1 to 4 dimensions, k up to 1200', 'thorough' : 'lists up to 5, vectors from larger grids, k up to 20000' }
BUDGET = { 'quick' : 100, 'thorough' : 600 }
RNG = [( 0.0, 360.0 ), ( -180.0, 180.0 ), ( 0.0, 2 * math.pi ), ( 2.0, 3.0 ), ( -1.0, 4.0 )]

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for n in ( 1, 2, 3, 4 ) + ( ( 5, ) if full else () ) :
        for w in range( 3 ) :
            out += [{ 'key' : 'average.%d.%d' % ( n, w ), 't' : 'A', 'a' : [n, w, None] }]
            for r in range( len( RNG ) ) : out += [{ 'key' : 'average.%d.%d.%d' % ( n, w, r ), 't' : 'A', 'a' : [n, w, r] }]
    for rank in ( 1, 2, 3, 4 ) :
        for o in 'CF' : out += [{ 'key' : 'image.%d.%s' % ( rank, o ), 't' : 'I', 'a' : [rank, o] }]
    for n in ( 1, 2, 3, 4 ) : out += [{ 'key' : 'basis.%d.%d' % ( n, k ), 't' : 'O', 'a' : [n, k], 'full' : full } for k in range( 4 )]
    for s in ( 'scalar','list','array','one','shape' ) : out += [{ 'key' : 'logfactorial.%s' % s, 't' : 'L', 'a' : [s, 20000 if full else 1200] }]
    for m in ( 'poly','gauss','mixed' ) :
        for idx in ( None, 'first', 'last' ) : out += [{ 'key' : 'mc.%s.%s' % ( m, idx ), 't' : 'M', 'a' : [m, idx] }]
    for dt in ( 'float64','int64','bool','uint8' ) :
        for rank in ( 0, 1, 2, 3 ) : out += [{ 'key' : 'format.%s.%d' % ( dt, rank ), 't' : 'F', 'a' : [dt, rank] }]
    for t in ( 'between','nice','index','types','subclass','next' ) : out += [{ 'key' : 'tools.%s' % t, 't' : 'T', 'a' : [t] }]
    return out

def run_case( case, ctx ) : globals()['do' + case['t']]( ctx, case, *case['a'] )

def doA( ctx, case, n, w, r ) :
    wts = [None, numpy.array( [1.0,3.0,0.5,2.0,0.25] )[:n], numpy.array( [0.2,0.0,0.3,0.1,0.4] )[:n]][w]
    ww = numpy.ones( n ) if wts is None else wts
    if ww.sum() == 0 : return
    if r is None : vals, rg = [-3.0, 0.0, 0.5, 2.0, 700.0], None
    else :
        rg = RNG[r]
        L = rg[1] - rg[0]
        vals = [rg[0] + f * L for f in ( 0.0, 0.03, 0.2, 0.26, 0.5, 0.77, 0.99 )]
    for v in itertools.product( vals, repeat=n ) :
        x = numpy.array( v )
        x0 = x.copy()
        a, s = Tools.average( x, weights=wts, circular=None if rg is None else list( rg ) )
        ctx.ev( 1 )
        ctx.true( 'input', numpy.array_equal( x, x0 ), str( v ) )
        if rg is None :
            m = float( ww @ x / ww.sum() )
            ctx.near( 'average', a, m, 1e-12, 1e-12, str( v ) )
            ctx.near( 'stdev', s, math.sqrt( float( ww @ ( x - m ) ** 2 / ww.sum() ) ), 1e-9, 1e-9, str( v ) )
            ctx.outcome( round( m, 6 ) )
            continue
        L = rg[1] - rg[0]
        z = complex( ww @ numpy.exp( 2j * math.pi * ( x - rg[0] ) / L ) ) / ww.sum()
        if abs( z ) < 1e-6 : continue                   # no preferred direction
        m = math.atan2( z.imag, z.real ) * L / ( 2 * math.pi ) + rg[0]
        df = lambda p, q : abs( ( p - q + 0.5 * L ) % L - 0.5 * L )
        ctx.true( 'circular-average', df( a, m ) < 1e-9 * L, '%s in %s: got %g expected %g' % ( v, rg, a, m ) )
        ctx.true( 'in-range', rg[0] - 1e-12 <= a <= rg[1] + 1e-12, '%s in %s: got %g' % ( v, rg, a ) )
        d = ( x - m + 0.5 * L ) % L - 0.5 * L
        if numpy.all( numpy.abs( numpy.abs( d ) - 0.5 * L ) > 1e-9 * L ) :
            ctx.near( 'circular-stdev', s, math.sqrt( float( ww @ d ** 2 / ww.sum() ) ), 1e-8, 1e-8 * L, str( v ) )
        # a turn more or less, or values moved along the circle
        for k in ( 1, -2 ) :
            y = x.copy()
            y[::2] += k * L
            b, t = Tools.average( y, weights=wts, circular=list( rg ) )
            ctx.true( 'equivalent', df( a, b ) < 1e-9 * L and abs( s - t ) < 1e-6 * L, '%s in %s: %g and %g' % ( v, rg, a, b ) )
        b, t = Tools.average( x + 0.3 * L, weights=wts, circular=list( rg ) )
        ctx.true( 'rotated', df( a + 0.3 * L, b ) < 1e-9 * L, '%s in %s: %g and %g' % ( v, rg, a, b ) )
        ctx.outcome( round( m, 6 ) )
    ctx.trace()
    ctx.trans( len( vals ) ** n )

def doI( ctx, case, rank, o ) :
    for shp in itertools.product( ( 1, 2, 3, 4 ), repeat=rank ) :
        n = int( numpy.prod( shp ) )
        y = ( numpy.arange( n ) * 7.0 % 31 + 0.1 * numpy.arange( n ) ).reshape( shp )
        y0 = y.copy()
        ia = ImageAssistant( order=o )
        k = ia.getIndices( y )
        yd = ia.getydata( y )
        ctx.true( 'shapes', yd.shape == ( n, ) and k.shape == ( ( n, ) if rank == 1 else ( n, rank ) ), str( shp ) )
        idx = [( int( i ), ) for i in k] if rank == 1 else [tuple( int( j ) for j in i ) for i in k]
        if o == 'F' : idx = [i[::-1] for i in idx]
        ctx.eq( 'all-pixels', len( set( idx ) ), n, str( shp ) )
        ok = all( 0 <= a < b for i in idx for a, b in zip( i, shp ) )
        ctx.true( 'inside', ok, str( shp ) )
        if ok : ctx.true( 'pixel', all( y[i] == v for i, v in zip( idx, yd ) ), 'shape %s order %s: data %s; pixels %s' % ( shp, o, yd, [y[i] for i in idx] ) )
        yd[0] += 100
        ctx.true( 'input', numpy.array_equal( y, y0 ), str( shp ) )
        yd[0] -= 100
        ctx.true( 'resize', numpy.array_equal( ia.resizeData( ia.getydata( y ) ), y ) and numpy.array_equal( ia.resizeData( ia.getydata( y ), shape=shp ), y ), str( shp ) )
        for c in ( True, False ) :
            ctx.near( 'position', ia.getPositions( y, center=c ), numpy.asarray( k ) + ( 0.5 if c else 0.0 ), 0, 0 )
            ctx.near( 'deproject', ia.getPositions( y, center=c, deproject=lambda p : 2 * p ), 2 * ( numpy.asarray( k ) + ( 0.5 if c else 0.0 ) ), 0, 0 )
        ctx.ev( 6 )
        ctx.trans()
        ctx.outcome( shp )
    ctx.trace()

def doO( ctx, case, n, k ) :
    g = [-1.0, 0.0, 0.5, 2.0] if n < 4 or case['full'] else [-1.0, 0.0, 0.5]
    vecs = [numpy.array( v ) for v in itertools.product( g, repeat=n ) if any( v )]
    depth = { 1 : 4, 2 : 3, 3 : 2, 4 : 2 }[n] + ( 1 if case['full'] and n < 4 else 0 )
    for h in itertools.product( range( len( vecs ) ), repeat=depth ) :
        if h[0] % 4 != k : continue
        ob = OrthonormalBasis()
        basis = []
        for i in h :
            for reset in ( False, ) if i % 3 else ( True, ) :
                v = vecs[i]
                v0 = v.copy()
                if reset or len( basis ) >= n : basis = []
                r = v - sum( ( b @ v ) * b for b in basis ) if basis else v
                if numpy.linalg.norm( r ) < 1e-9 : break          # depends on the others
                u = ob.normalise( v, reset=reset )
                ctx.true( 'input', numpy.array_equal( v, v0 ), str( v ) )
                lab = 'history %s' % [tuple( vecs[j] ) for j in h]
                ctx.near( 'unit', float( u @ u ), 1.0, 1e-10, 0, lab )
                for b in basis : ctx.near( 'orthogonal', float( u @ b ), 0.0, 0, 1e-7, lab )
                ctx.near( 'direction', u, r / numpy.linalg.norm( r ), 1e-7, 1e-7, lab )
                basis += [r / numpy.linalg.norm( r )]
                ctx.ev( 1 )
            else : continue
            break
        ctx.trans()
    ctx.trace()
    ctx.outcome( n )

def doL( ctx, case, s, m ) :
    ks = list( range( m ) )
    ref = [math.lgamma( k + 1 ) for k in ks]
    if s == 'scalar' :
        for k in ks : ctx.near( 'logFactorial', float( logFactorial( k ) ), ref[k], 1e-10, 1e-8, 'k %d' % k )
    elif s == 'list' : ctx.near( 'logFactorial', logFactorial( ks ), ref, 1e-10, 1e-8 )
    elif s == 'array' :
        for dt in ( int, float ) : ctx.near( 'logFactorial', logFactorial( numpy.array( ks, dtype=dt ) ), ref, 1e-10, 1e-8 )
    elif s == 'one' :
        for k in ks[::7] :
            for v in ( [k], numpy.array( [k] ), numpy.array( [float( k )] ) ) :
                g = numpy.asarray( logFactorial( v ) )
                ctx.near( 'logFactorial', float( g.reshape( -1 )[0] ), ref[k], 1e-10, 1e-8, str( v ) )
            ctx.near( 'logFactorial', float( logFactorial( float( k ) ) ), ref[k], 1e-10, 1e-8 )
        # one count of a Poisson process
        for y in ( 0.0, 1.0, 7.0, 130.0 ) :
            m = B.PolynomialModel( 0 )
            m.parameters = [3.5]
            p = B.ClassicProblem( m, xdata=numpy.array( [1.0] ), ydata=numpy.array( [y] ) )
            ed = B.PoissonErrorDistribution()
            ctx.near( 'one-count', float( ed.logLikelihood( p, numpy.array( [3.5] ) ) ), y * math.log( 3.5 ) - 3.5 - math.lgamma( y + 1 ), 1e-9, 1e-8 )
    else :
        for shp in ( ( 2, 3 ), ( 3, 2 ), ( 2, 2, 2 ), ( 1, 1 ), ( 1, 4 ) ) :
            k = ( numpy.arange( int( numpy.prod( shp ) ) ) * 37 ).reshape( shp )
            k0 = k.copy()
            g = logFactorial( k )
            ctx.near( 'logFactorial', g, numpy.array( [math.lgamma( v + 1 ) for v in k.flat] ).reshape( shp ), 1e-10, 1e-8 )
            ctx.true( 'input', numpy.array_equal( k, k0 ), '' )
    ctx.ev( m if isinstance( m, int ) else 1 )
    ctx.trans( m if isinstance( m, int ) else 1 )
    ctx.trace()
    ctx.outcome( s )

def doM( ctx, case, mod, idx ) :
    x = numpy.linspace( -1, 1, 6 )
    m = { 'poly' : lambda : B.PolynomialModel( 2 ), 'gauss' : lambda : B.GaussModel(), 'mixed' : lambda : B.PolynomialModel( 1 ) + B.SineAmpModel( 2.0 ) }[mod]()
    m.parameters = { 'poly' : [1.0,-0.5,0.3], 'gauss' : [1.0,0.2,0.7], 'mixed' : [1.0,0.5,0.3,-0.2] }[mod]
    np = m.npchain
    index = None if idx is None else [0,2] if idx == 'first' else [np - 1]
    ii = range( np ) if index is None else index
    nf = len( ii )
    A = numpy.array( [[1.0 + 0.3 * i, 0.4, -0.2, 0.1][:nf] for i in range( nf )] ) * 0.01
    for kind, C in ( ( 'full', A @ A.T + 1e-5 * numpy.eye( nf ) ), ( 'singular', numpy.outer( A[:,0], A[:,0] ) ), ( 'zero', numpy.zeros( ( nf, nf ) ) ) ) :
        C0, par0 = C.copy(), m.parameters.copy()
        numpy.random.seed( 99 )
        st = numpy.random.get_state()[1].copy()
        mk = lambda seed=4, mc=30 : MonteCarlo( x, m, C, index=index, seed=seed, mcycles=mc )
        a = mk()
        e1 = a.getError()
        ctx.true( 'global-generator', numpy.array_equal( numpy.random.get_state()[1], st ), '%s: the state of the random generator of the caller is changed' % kind )
        ctx.true( 'finite', numpy.all( numpy.isfinite( e1 ) ) and numpy.all( e1 >= 0 ), '%s %s' % ( kind, e1 ) )
        b = mk()
        numpy.random.rand( 5 )
        vs = numpy.array( [b.randomVariant( x ) for k in range( 30 )] )
        numpy.random.rand( 5 )
        ctx.near( 'stdev-of-variants', e1, vs.std( axis=0 ), 1e-6, 1e-7, kind )
        c = mk()
        numpy.random.seed( 1 )
        ctx.near( 'reproducible', c.getError( x ), e1, 0, 0, kind )
        d1, d2 = mk( seed=5 ), mk( seed=6 )               # two of them do not disturb each other
        r1 = d1.getError()
        r2 = d2.getError()
        d1, d2 = mk( seed=5 ), mk( seed=6 )
        v1, v2 = [], []
        for k in range( 30 ) :
            v1 += [d1.randomVariant( x )]
            v2 += [d2.randomVariant( x )]
        ctx.near( 'independent', numpy.std( v1, axis=0 ), r1, 1e-6, 1e-7, kind )
        ctx.near( 'independent', numpy.std( v2, axis=0 ), r2, 1e-6, 1e-7, kind )
        ctx.true( 'kept', numpy.array_equal( m.parameters, par0 ) and numpy.array_equal( C, C0 ), kind )
        if kind == 'zero' :
            ctx.near( 'no-error', e1, numpy.zeros( 6 ), 0, 1e-7 )
            continue
        # size
        J = m.partial( x, m.parameters )[:,list( ii )]
        ex = numpy.sqrt( numpy.einsum( 'ij,jk,ik->i', J, C, J ) )
        big = mk( seed=11, mc=4000 ).getError()
        ctx.near( 'size', big, ex, 6 / math.sqrt( 8000.0 ) + 0.02, 1e-4, kind )
        s = str( a )
        ctx.true( 'str', 'MonteCarlo' in s and '4' in s and '30' in s, s )
        ctx.ev( 1 )
        ctx.trans()
    ctx.trace()
    ctx.outcome( ( mod, idx ) )

def doF( ctx, case, dt, rank ) :
    for shp in itertools.product( ( 1, 2, 3, 7, 12 ), repeat=rank ) if rank < 3 else itertools.product( ( 1, 2, 6 ), repeat=3 ) :
        n = int( numpy.prod( shp ) ) if rank else 1
        v = ( ( numpy.arange( n ) * 37 ) % 101 )
        a = ( v * 0.125 - 3 if dt == 'float64' else v % 2 if dt == 'bool' else v ).astype( dt ).reshape( shp )
        a0 = a.copy()
        for mx, tail, ll, ind in itertools.product( ( None, 3, -1 ), ( 0, 2 ), ( 120, 40 ), ( 0, 4 ) ) :
            if tail and mx is None : continue
            s = formatter( a, max=mx, tail=tail, linelength=ll, indent=ind )
            ctx.ev( 1 )
            nums = [float( t ) for t in re.findall( r'-?\d+\.?\d*', s.replace( '...', ' ' ) )]
            m = 5 if mx == -1 else mx
            def pick( b ) :
                if b.size == 1 : return [float( b.reshape( -1 )[0] )]
                k = list( range( len( b ) ) )
                if m is not None and len( k ) > m : k = k[:m] + ( k[-min( tail, len( k ) - m ):] if tail else [] )
                return [q for i in k for q in pick( b[i] )]
            ctx.true( 'numbers', nums == pick( a ), '%s %s max %s tail %s: %r' % ( dt, shp, mx, tail, s[:200] ) )
            ctx.true( 'brackets', s.count( '[' ) == s.count( ']' ), s[:100] )
            ctx.true( 'input', numpy.array_equal( a, a0 ), '' )
        ctx.true( 'fma', formatter( a, max=None ) == fma( a ), str( shp ) )
        ctx.outcome( shp )
        ctx.trans()
    ctx.trace()

def doT( ctx, case, t ) :
    if t == 'between' :
        g = [-2.0, -1.0, 0.0, 0.5, 3.0]
        for a, x, b in itertools.product( g, repeat=3 ) : ctx.eq( 'isBetween', bool( Tools.isBetween( a, x, b ) ), min( a, b ) <= x <= max( a, b ), str( ( a, x, b ) ) )
    elif t == 'nice' :
        for e in range( -6, 9 ) :
            for d in ( 1.0, 1.3, 2.0, 2.999, 4.5, 7.0, 9.9 ) :
                for s in ( 1, -1 ) :
                    x = d * 10.0 ** e
                    v = Tools.nicenumber( s * x )
                    ctx.true( 'nice', 0.45 * x <= abs( v ) <= x * ( 1 + 1e-9 ) and v * s > 0, '%g gives %g' % ( s * x, v ) )
                    f = abs( v ) / 10 ** math.floor( math.log10( abs( v ) * 1.0000001 ) )
                    ctx.true( 'digit', abs( f - round( f ) ) < 1e-6, '%g gives %g' % ( x, v ) )
        ctx.eq( 'zero', Tools.nicenumber( 0 ), 0 )
    elif t == 'index' :
        for v in itertools.product( ( 0, 1, 2 ), repeat=4 ) :
            for c in ( 0, 1, 2 ) :
                if c in v : ctx.eq( 'firstIndex', Tools.firstIndex( v, condition=lambda x : x == c ), v.index( c ) )
            ctx.eq( 'firstIndex', Tools.firstIndex( v ), 0 )
            for k in range( 6 ) : ctx.eq( 'getItem', Tools.getItem( list( v ), k ), v[k] if k < 4 else v[-1] )
        ctx.eq( 'getItem', Tools.getItem( 5.0, 3 ), 5.0 )
        for x, n in ( ( None, 0 ), ( 3.0, 1 ), ( [1,2], 2 ), ( numpy.zeros( ( 4, 2 ) ), 4 ), ( 'ab', 2 ), ( [], 0 ) ) : ctx.eq( 'length', Tools.length( x ), n )
    elif t == 'types' :
        i, f, s = ( 3, numpy.int64( 2 ), True ), ( 1.5, numpy.float64( 2.5 ) ), ( 'a', None, [1] )
        for v in i : ctx.true( 'int', Tools.isInstance( v, int ) and Tools.isInstance( v, float ), repr( v ) )
        for v in f : ctx.true( 'float', not Tools.isInstance( v, int ) and Tools.isInstance( v, float ), repr( v ) )
        for v in s : ctx.true( 'other', not Tools.isInstance( v, int ) and not Tools.isInstance( v, float ), repr( v ) )
        class Obj( object ) : pass
        for v, cls, ok in ( ( 3, int, 1 ), ( 3.5, int, 0 ), ( 3, float, 1 ), ( 'a', str, 1 ), ( 'a', float, 0 ), ( [1], int, 0 ) ) :
            o = Obj()
            try : r = Tools.setSingleAttributes( o, 'x', v, { 'x' : cls } ) and o.x == v
            except TypeError : r = False
            ctx.eq( 'single', bool( r ), bool( ok ), repr( ( v, cls ) ) )
            ctx.eq( 'not-mine', Tools.setSingleAttributes( o, 'y', v, { 'x' : cls } ), False )
        for v, cls, ok in ( ( 3, int, [3] ), ( [1,2], int, [1,2] ), ( [1,2.5], float, [1,2.5] ), ( [1,2.5], int, None ), ( ['a'], float, None ), ( 2.5, float, [2.5] ), ( numpy.array( [1.0,2.0] ), float, [1.0,2.0] ) ) :
            o = Obj()
            try : r = list( o.x ) if Tools.setListOfAttributes( o, 'x', v, { 'x' : cls } ) else None
            except TypeError : r = None
            ctx.eq( 'list', r, ok, repr( ( v, cls ) ) )
        o = Obj()
        ctx.true( 'none', Tools.setNoneAttributes( o, 'x', None, ['x'] ) and o.x is None and not Tools.setNoneAttributes( o, 'x', 1, ['x'] ) and not Tools.setNoneAttributes( o, 'y', None, ['x'] ), '' )
    elif t == 'subclass' :
        cl = [B.PolynomialModel, B.Model, B.GaussModel, B.Fitter, B.UniformPrior, B.Prior if hasattr( B, 'Prior' ) else object]
        for a, b in itertools.product( cl, repeat=2 ) : ctx.eq( 'subclassof', Tools.subclassof( a, b ), issubclass( a, b ), str( ( a, b ) ) )
        ctx.eq( 'subclassof', Tools.subclassof( 3, B.Model ), False )
    else :
        for v in ( [1,2,3], numpy.array( [4.0,5.0] ), 7 ) :
            for k in range( 4 ) :
                it = Tools.makeNext( v, k )
                got = [next( it ) for i in range( 6 )]
                L = [v] if isinstance( v, int ) else list( v )
                ctx.eq( 'makeNext', got, [L[min( k + i, len( L ) - 1 )] for i in range( 6 )], str( ( v, k ) ) )
    ctx.ev( 1 )
    ctx.trans()
    ctx.trace()
    ctx.outcome( t )
