""" C03 partial derivatives to the parameters are those of the result """
import itertools, numpy, copy
import expr as E
import models as M
import BayesicFitting as B

LEVEL = 'exploration'
RULE = ( 'every model of the catalogue at every parameter set, with every subset of parameters fixed; all expression trees '
         'up to N leaves; partials are compared with derivatives of the reference formula (complex step) or of the result itself '
         '(extrapolated central differences)' )
ASSUME = ['evaluation points away from kinks and poles', 'multi-output models in compounds: only + , - and |']
BOUNDS = { 'quick' : 'trees: 4 leaves', 'thorough' : 'trees: 5 leaves' }
BUDGET = { 'quick' : 120, 'thorough' : 400 }
X = numpy.array( [-1.3,-0.4,0.0,0.35,1.1] )
X2 = numpy.array( [[-1.0,0.3],[-0.2,-0.7],[0.4,0.9],[1.1,0.1]] )

def cases( tier ) :
    out = [{ 'key' : 'mdl.' + m.name, 'm' : m.name } for m in M.CAT + M.EXT]
    top = 4 if tier == 'quick' else 5
    for n in range( 2, top + 1 ) :
        for i, s in enumerate( E.shapes( n ) ) :
            for ops in itertools.product( E.OPS, repeat=n - 1 ) :
                out += [{ 'key' : 'n%d.%d.%s' % ( n, i, ''.join( ops ) ), 'n' : n, 's' : i, 'ops' : ''.join( ops ) }]
    for n in range( 2, ( 3 if tier == 'quick' else 4 ) + 1 ) :
        tt = E.trees2( n )
        for k in range( 0, len( tt ), 50 ) :
            out += [{ 'key' : '2d.n%d.%d' % ( n, k ), 'n' : n, 'lo' : k }]
    for k in range( len( MIX ) ) :
        out += [{ 'key' : 'mix.%d' % k, 'mix' : k }]
    return out

# compounds of models from the catalogue with various numbers of inputs and outputs
SM = lambda ndim, ndout, off=True : B.SoftMaxModel( ndim=ndim, ndout=ndout, offset=off )
def piped( *ms ) :
    m = ms[0].copy()
    for q in ms[1:] : m |= q.copy()
    return m
def summed( *ms ) :
    m = ms[0].copy()
    for q in ms[1:] : m += q.copy()
    return m
MIX = [
  lambda : piped( SM( 2, 1 ), B.PolynomialModel( 2 ) ),
  lambda : piped( B.PolySurfaceModel( 1 ), B.GaussModel() ),
  lambda : piped( SM( 1, 2 ), B.PolySurfaceModel( 1 ) ),
  lambda : piped( SM( 2, 2 ), B.PolySurfaceModel( 1 ) ),
  lambda : piped( SM( 2, 2 ), SM( 2, 2 ) ),
  lambda : piped( SM( 2, 3 ), SM( 3, 2 ) ),
  lambda : piped( SM( 1, 3 ), SM( 3, 2 ) ),
  lambda : piped( SM( 1, 2 ), SM( 2, 1 ) ),
  lambda : piped( SM( 2, 3 ), SM( 3, 1 ) ),
  lambda : piped( B.PolynomialModel( 1 ), SM( 1, 2 ) ),
  lambda : piped( B.PolynomialModel( 1 ), SM( 1, 3, False ) ),
  lambda : piped( B.PolySurfaceModel( 1 ), SM( 1, 2 ) ),
  lambda : piped( SM( 1, 2 ), B.Kernel2dModel() ),
  lambda : piped( SM( 1, 1 ), SM( 1, 1 ), B.ExpModel() ),
  lambda : summed( SM( 1, 2 ), SM( 1, 2, False ) ),
  lambda : summed( SM( 2, 2 ), SM( 2, 2, False ) ),
  lambda : B.StellarOrbitModel( spherical=False ) + B.StellarOrbitModel( spherical=False ),
  lambda : B.StellarOrbitModel( spherical=False ) - SM( 1, 2 ),
  lambda : SM( 2, 2 ) - SM( 2, 2, False ),
  lambda : ( B.PolySurfaceModel( 1 ) | B.GaussModel() ) + B.PolySurfaceModel( 1 ),
  lambda : ( B.PolySurfaceModel( 1 ) + B.Kernel2dModel() ) | ( B.GaussModel() + B.PolynomialModel( 1 ) ),
  lambda : ( B.PolynomialModel( 1 ) | B.GaussModel() ) * B.ExpModel() + B.ArctanModel(),
  lambda : B.VoigtModel() / ( B.PolynomialModel( 0 ) + B.EtalonModel() ),
  lambda : B.RadialVelocityModel() + B.PolynomialModel( 1 ),
  lambda : B.RepeatingModel( 2, B.GaussModel() + B.PolynomialModel( 1 ) ) + B.PolynomialModel( 1 ),
  lambda : B.CombiModel( B.LorentzModel(), 3, addCombi={1:[0,0.4,0.9]}, mulCombi={2:[1,2,0.5]} ) * B.PolynomialModel( 1 ),
]
def mixpars( m ) :
    d = [0.7,0.35,1.3,0.25,0.9,0.6,1.1,0.45]
    return numpy.array( [d[k % 8] * ( 1 + 0.03 * k ) for k in range( m.npars )] )
def mixx( m ) :
    return numpy.array( [0.11,0.47,0.83,1.29] ) if m.ndim == 1 else X2

def numpart( f, p, rel=2e-3 ) :
    """ extrapolated central differences of f to its parameters """
    out = []
    for k in range( len( p ) ) :
        h = rel * max( abs( p[k] ), 0.3 )
        def cd( h ) :
            a, b = p.copy(), p.copy()
            a[k] += h
            b[k] -= h
            return ( f( a ) - f( b ) ) / ( 2 * h )
        d1, d2, d4 = cd( h ), cd( h / 2 ), cd( h / 4 )
        e1, e2 = ( 4 * d2 - d1 ) / 3, ( 4 * d4 - d2 ) / 3
        out += [( 16 * e2 - e1 ) / 15]
    return out

def compare( what, ctx, part, ref, ndout, lab, rtol=2e-6 ) :
    """ ref : list ( npar ) of arrays ( ndata ) or ( ndata, ndout ) """
    if ndout == 1 :
        exp = numpy.array( ref ).T if len( ref ) else numpy.zeros( ( len( part ), 0 ) )
        return ctx.near( what, part, exp, rtol, rtol * 0.1, lab )
    r = numpy.array( ref )                 # npar, ndata, ndout
    for j in range( ndout ) :
        ctx.near( what, part[j], r[:,:,j].T, rtol, rtol * 0.1, '%s output %d' % ( lab, j ) )

def subsets( n, maxn=5 ) :
    if n <= maxn :
        for r in range( 1, n ) :
            for c in itertools.combinations( range( n ), r ) : yield c
    else :
        for c in range( n ) : yield ( c, )
        yield tuple( range( 0, n, 2 ) )

def twofixed( mm, p ) :
    """ two parameters replaced by models, one of which a compound, in either order; a third one by a constant """
    n = len( p )
    for k in range( n - 1 ) :
        for a, b in ( ( k, k + 1 ), ( k + 1, k ), ( k, n - 1 ), ( n - 1, k ) )[:( 2 if k == n - 2 else 4 )] :
            for const in ( None, ) + tuple( i for i in range( n ) if i not in ( a, b ) )[:1] :
                fx = { a : B.PolynomialModel( 0 ) + B.ExpModel() }
                if const is not None : fx[const] = p[const]
                fx[b] = B.PolynomialModel( 1 )
                free = [p[i] for i in range( n ) if i not in fx]
                q = numpy.array( free + [p[a] * 0.7, p[a] * 0.3, 0.013, p[b], 0.017] )
                if const is not None and k == 0 : fx[const] = B.ExpModel()
                if const is not None and k == 0 :
                    q = numpy.array( [p[i] for i in range( n ) if i not in fx] + [p[a] * 0.7, p[a] * 0.3, 0.013, p[const], 0.023, p[b], 0.017] )
                    yield '%s fixed %s' % ( mm.name, [( i, str( v )[:40] ) for i, v in fx.items()] ), mm.make( fixed=fx ), q
                    continue
                yield '%s fixed %s' % ( mm.name, [( i, str( v )[:40] ) for i, v in fx.items()] ), mm.make( fixed=fx ), q

def run_case( case, ctx ) :
    if 'm' in case : return model( M.BYNAME[case['m']], ctx )
    if 'mix' in case :
        m = MIX[case['mix']]()
        x = mixx( m )
        p = mixpars( m )
        ref = numpart( lambda q : m.result( x, q ), p )
        compare( 'partial', ctx, m.partial( x, p ), ref, m.lastndout, str( m )[:200] )
        compare( 'numPartial', ctx, m.numPartial( x, p ), ref, m.lastndout, str( m )[:200], 1e-4 )
        ctx.outcome( [numpy.round( r, 5 ) for r in ref] )
        return
    if 'lo' in case :
        tt = E.trees2( case['n'] )[case['lo']:case['lo']+50]
        table, x = E.LEAVES2, X2
    else :
        n = case['n']
        s = E.shapes( n )[case['s']]
        if n == 2 : ls = list( itertools.product( 'PGEFLMCDH', repeat=2 ) )
        elif n == 3 : ls = [tuple( q ) for q in ( 'PGE','GEP','EPG','FPG','PGC','CPG','MGP','LEM','DPH','GDE' )]
        else : ls = [tuple( 'PGEFL'[:n] ),tuple( 'GEPMP'[:n] )]
        tt = [E.tree( s, case['ops'], l ) for l in ls]
        table, x = E.LEAVES, X
    for t in tt :
        pars = E.leafpars( t, table )
        ref = E.refpart( t, x, pars, table )
        for how in ( 'bin','inp' ) :
            m = E.build( t, how=how, table=table )
            part = m.partial( x, E.flat( pars ) )
            ctx.trans()
            rt = 1e-8 if not set( 'MDH' ) & set( E.leavesof( t ) ) else 1e-6
            ctx.near( 'partial', part, ref, rt, 1e-10, E.tstr( t ) + ' ' + how )
            if how == 'inp' : ctx.near( 'numPartial', m.partial( x, E.flat( pars ), useNum=True ), ref, 1e-4, 1e-5, E.tstr( t ) )
        ctx.outcome( numpy.round( ref, 8 ) )

def model( mm, ctx ) :
    for p in mm.pars :
        m = mm.make()
        f = lambda q : m.result( mm.x, q )
        ref = numpart( f, p )
        part = m.partial( mm.x, p.copy() )
        ctx.trans()
        compare( 'partial', ctx, part, ref, mm.ndout, mm.name )
        for nm in ( 'partial','numPartial','strictNumericPartial' ) : M.intcheck( ctx, mm, p, nm )
        np = numpart( f, p, 1e-4 )
        compare( 'strictNumericPartial', ctx, m.strictNumericPartial( mm.x, p.copy() ), np, mm.ndout, mm.name, 1e-4 )
        compare( 'numPartial', ctx, m.numPartial( mm.x, p.copy() ), ref, mm.ndout, mm.name, 1e-4 )
        ctx.outcome( [numpy.round( r, 5 ) for r in ref] )
        # one data point at a time
        for k in range( len( mm.x ) ) :
            pk = m.partial( mm.x[k:k+1], p.copy() )
            if mm.ndout == 1 : ctx.near( 'single-point', pk[0], numpy.asarray( part )[k], 1e-6, 1e-8, mm.name )
            else :
                for j in range( mm.ndout ) : ctx.near( 'single-point', pk[j][0], part[j][k], 1e-6, 1e-8, mm.name )
        if not mm.fix : continue
        for c in subsets( len( p ) ) :
            fm = mm.make( fixed={ k : p[k] for k in c } )
            free = [k for k in range( len( p ) ) if k not in c]
            pf = fm.partial( mm.x, p[free] )
            compare( 'fixed-partial', ctx, pf, [ref[k] for k in free], mm.ndout, '%s fixed %s' % ( mm.name, c ) )
            ctx.trans()
        # a parameter replaced by a model
        if mm.ndim == 1 and mm.ndout == 1 and mm.name not in ( 'RadialVelocity', ) :
            for k in range( len( p ) ) :
                for sub in ( lambda : B.PolynomialModel( 1 ), lambda : B.ExpModel() ) :
                    fm = mm.make( fixed={ k : sub() } )
                    if fm.npars != len( p ) + 1 : ctx.bad( 'fixed-model-npars', '%s %d' % ( mm.name, fm.npars ) )
                    q = numpy.append( [p[i] for i in range( len( p ) ) if i != k], [p[k], 0.013] )
                    with numpy.errstate( all='ignore' ) :
                        ff = lambda q : fm.result( mm.x, q )
                        rr = numpart( ff, q, 1e-3 )
                        if not all( numpy.all( numpy.isfinite( r ) ) for r in rr ) : continue
                        compare( 'model-fixed-partial', ctx, fm.partial( mm.x, q ), rr, 1, '%s p%d is a model' % ( mm.name, k ), 2e-5 )
            for lab, fm, q in twofixed( mm, p ) :
                with numpy.errstate( all='ignore' ) :
                    rr = numpart( lambda q : fm.result( mm.x, q ), q, 1e-3 )
                    if not all( numpy.all( numpy.isfinite( r ) ) for r in rr ) : continue
                    compare( 'models-fixed-partial', ctx, fm.partial( mm.x, q ), rr, 1, lab, 2e-5 )
                ctx.trans()
