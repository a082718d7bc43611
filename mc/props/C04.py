""" C04 derivatives to the independent variable are those of the result """
import itertools, numpy
import expr as E
import models as M
import BayesicFitting as B
import props.C03 as C03

LEVEL = 'exploration'
RULE = ( 'every catalogue model at every parameter set and with every subset of parameters fixed (constants, and a model per parameter); '
         'all expression trees up to N leaves; compounds of models with several inputs and outputs; derivative to x is compared '
         'with the complex-step derivative of the reference formula or with extrapolated central differences of the result' )
ASSUME = ['evaluation points away from kinks and poles', 'models where the difference quotient does not converge at a point are left out at that point']
BOUNDS = { 'quick' : 'trees: 4 leaves', 'thorough' : 'trees: 5 leaves' }
BUDGET = { 'quick' : 120, 'thorough' : 400 }
X, X2 = C03.X, C03.X2

def cases( tier ) :
    return C03.cases( tier )

def numderiv( f, x, ndim, h0=1e-3 ) :
    """ central differences, extrapolated; returns ( estimate, error estimate ) """
    def cd( h, i ) :
        a, b = x.copy(), x.copy()
        if ndim == 1 :
            a, b = a + h, b - h
        else :
            a[:,i] += h
            b[:,i] -= h
        return ( f( a ) - f( b ) ) / ( 2 * h )
    est, err = [], []
    for i in range( ndim ) :
        d1, d2, d4 = cd( h0, i ), cd( h0 / 2, i ), cd( h0 / 4, i )
        e1, e2 = ( 4 * d2 - d1 ) / 3, ( 4 * d4 - d2 ) / 3
        e = ( 16 * e2 - e1 ) / 15
        est += [e]
        err += [abs( e - e2 )]
    return est, err

def compare( what, ctx, df, est, err, ndim, ndout, lab, rtol=5e-6 ) :
    """ est: list( ndim ) of arrays ( ndata[, ndout] ) """
    if ndim == 1 :
        exp, e = est[0], err[0]
    elif ndout == 1 :
        exp, e = numpy.array( est ).T, numpy.array( err ).T
    else :
        exp = numpy.array( [numpy.array( [q[:,j] for q in est] ).T for j in range( ndout )] )
        e = numpy.array( [numpy.array( [q[:,j] for q in err] ).T for j in range( ndout )] )
    try :
        df = numpy.asarray( df, dtype=float )
    except Exception as x :
        ctx.bad( what, 'not numeric %r %s' % ( df, lab ) )
        return
    if df.shape != exp.shape :
        ctx.bad( what, 'shape %s expected %s %s' % ( df.shape, exp.shape, lab ) )
        return
    good = numpy.isfinite( exp ) & ( e < 1e-6 * ( 1 + abs( exp ) ) )
    ctx.note( 'points skipped' , int( numpy.sum( ~good ) ) )
    ctx.note( 'points compared', int( numpy.sum( good ) ) )
    ctx.near( what, df[good], exp[good], rtol, rtol * 0.2, lab )

def run_case( case, ctx ) :
    if 'm' in case : return model( M.BYNAME[case['m']], ctx )
    if 'mix' in case :
        m = C03.MIX[case['mix']]()
        x = C03.mixx( m )
        p = C03.mixpars( m )
        est, err = numderiv( lambda q : m.result( q, p ), x, m.ndim )
        compare( 'derivative', ctx, m.derivative( x, p ), est, err, m.ndim, m.lastndout, str( m )[:200] )
        compare( 'numDerivative', ctx, m.numDerivative( x, p ), est, err, m.ndim, m.lastndout, str( m )[:200], 1e-4 )
        compare( 'strictNumericDerivative', ctx, m.strictNumericDerivative( x, p ), est, err, m.ndim, m.lastndout, str( m )[:200], 1e-4 )
        ctx.outcome( [numpy.round( r, 5 ) for r in est] )
        return
    if 'lo' in case :
        tt = E.trees2( case['n'] )[case['lo']:case['lo']+50]
        table, x = E.LEAVES2, X2
    else :
        n = case['n']
        s = E.shapes( n )[case['s']]
        if n == 2 : ls = list( itertools.product( 'PGEFLMCDH', repeat=2 ) )
        elif n == 3 : ls = [tuple( q ) for q in ( 'PGE','GEP','EPG','FPG','PGC','CPG','MGP','LEM','DPH','GDE' )]
        else : ls = [tuple( 'PGEFL'[:n] ),tuple( 'GEPMP'[:n] )]
        tt = [E.tree( s, case['ops'], l ) for l in ls]
        table, x = E.LEAVES, X
    for t in tt :
        pars = E.leafpars( t, table )
        ref = E.refderiv( t, x, pars, table )
        for how in ( 'bin','inp' ) :
            m = E.build( t, how=how, table=table )
            df = m.derivative( x, E.flat( pars ) )
            ctx.trans()
            rt = 1e-8 if not set( 'MDH' ) & set( E.leavesof( t ) ) else 1e-5
            ctx.near( 'derivative', df, ref, rt, 1e-10, E.tstr( t ) + ' ' + how )
            if how == 'inp' : ctx.near( 'numDerivative', m.derivative( x, E.flat( pars ), useNum=True ), ref, 1e-4, 1e-5, E.tstr( t ) )
        ctx.outcome( numpy.round( ref, 8 ) )

def model( mm, ctx ) :
    if not mm.der : return
    for p in mm.pars :
        m = mm.make()
        f = lambda q : m.result( q, p.copy() )
        est, err = numderiv( f, mm.x, mm.ndim )
        compare( 'derivative', ctx, m.derivative( mm.x, p.copy() ), est, err, mm.ndim, mm.ndout, mm.name )
        compare( 'strictNumericDerivative', ctx, m.strictNumericDerivative( mm.x, p.copy() ), est, err, mm.ndim, mm.ndout, mm.name, 1e-4 )
        compare( 'numDerivative', ctx, m.numDerivative( mm.x, p.copy() ), est, err, mm.ndim, mm.ndout, mm.name, 1e-4 )
        for nm in ( 'derivative','numDerivative','strictNumericDerivative' ) : M.intcheck( ctx, mm, p, nm )
        ctx.outcome( [numpy.round( r, 5 ) for r in est] )
        if not mm.fix : continue
        for c in C03.subsets( len( p ) ) :
            fm = mm.make( fixed={ k : p[k] for k in c } )
            free = [k for k in range( len( p ) ) if k not in c]
            compare( 'fixed-derivative', ctx, fm.derivative( mm.x, p[free] ), est, err, mm.ndim, mm.ndout, '%s fixed %s' % ( mm.name, c ) )
            ctx.trans()
        if mm.ndim == 1 and mm.ndout == 1 and mm.name != 'RadialVelocity' :
            for k in range( len( p ) ) :
                for sub in ( lambda : B.PolynomialModel( 1 ), lambda : B.ExpModel() ) :
                    fm = mm.make( fixed={ k : sub() } )
                    q = numpy.append( [p[i] for i in range( len( p ) ) if i != k], [p[k], 0.013] )
                    with numpy.errstate( all='ignore' ) :
                        es, er = numderiv( lambda x : fm.result( x, q ), mm.x, 1 )
                        compare( 'model-fixed-derivative', ctx, fm.derivative( mm.x, q ), es, er, 1, 1, '%s p%d is a model' % ( mm.name, k ), 1e-4 )
            for lab, fm, q in C03.twofixed( mm, p ) :
                with numpy.errstate( all='ignore' ) :
                    es, er = numderiv( lambda x : fm.result( x, q ), mm.x, 1 )
                    compare( 'models-fixed-derivative', ctx, fm.derivative( mm.x, q ), es, er, 1, 1, lab, 1e-4 )
                ctx.trans()
