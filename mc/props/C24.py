""" C24 the simplex minimiser, all its random draws controlled """
import numpy, math, itertools, warnings
from BayesicFitting.source.AnnealingAmoeba import AnnealingAmoeba
from BayesicFitting.source.ConvergenceError import ConvergenceError
from choice import ChoiceRNG, explore

LEVEL = 'model_checking'
RULE = ( 'the real minimiser driven through all executions in which up to maxdev of its random draws deviate; monitored at every function call and every iteration: all points within the limits, '
         'each vertex has its own function value, the optimum is the lowest ever seen with the parameters that belong to it, the caller\'s arrays stay as they are, the number of iterations is bounded' )
ASSUME = ['functions of 2 or 3 parameters, one with a NaN region, one with a plateau']
BOUNDS = { 'quick' : '1 deviation in the first 24 draws; 40 iterations when annealing', 'thorough' : '2 deviations in the first 40 draws' }
BUDGET = { 'quick' : 90, 'thorough' : 900 }

def quad( p ) : return float( ( p[0] - 1.3 ) ** 2 + 3 * ( p[1] + 0.4 ) ** 2 + 0.5 )
def rosen( p ) : return float( 20 * ( p[1] - p[0] ** 2 ) ** 2 + ( 1 - p[0] ) ** 2 )
def quad3( p ) : return float( ( p[0] - 0.2 ) ** 2 + ( p[1] + p[0] ) ** 2 + 2 * ( p[2] - 1 ) ** 2 + 1 )
def absf( p ) : return float( abs( p[0] - 0.3 ) + 2 * abs( p[1] - 0.7 ) + 0.01 )
def nanny( p ) : return math.nan if p[0] + p[1] > 3.5 else quad( p )
def step( p ) : return float( numpy.floor( 5 * quad( p ) ) )
F = { 'quad' : ( quad, 2, ( 1.3, -0.4 ) ), 'rosen' : ( rosen, 2, ( 1.0, 1.0 ) ), 'quad3' : ( quad3, 3, ( 0.2, -0.2, 1.0 ) ), 'abs' : ( absf, 2, ( 0.3, 0.7 ) ), 'nan' : ( nanny, 2, ( 1.3, -0.4 ) ), 'step' : ( step, 2, None ) }
INF = math.inf
LIM = { 'none' : None, 'scalar' : ( -3.0, 4.0 ), 'arr' : ( [-2.0, -1.0, -3.0], [3.0, 2.0, 2.5] ), 'low' : ( [-2.0, -1.0, -1.0], [INF, INF, INF] ), 'high' : ( [-INF, -INF, -INF], [2.0, 1.5, 1.8] ),
        'mixed' : ( [-INF, -0.2, -INF], [1.0, INF, INF] ), 'cut' : ( [1.6, -3.0, -3.0], [3.0, -0.6, 2.0] ) }
START = { 'mid' : [0.5, 0.4, 0.3], 'same' : [0.0, 0.0, 0.0], 'diag' : [0.0, 1.0, 2.0], 'int' : [1, 2, 1], 'atlow' : None, 'athigh' : None }

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for f in F :
        for l in LIM :
            for s in START :
                if LIM[l] is None and START[s] is None : continue
                out += [{ 'key' : '%s.%s.%s' % ( f, l, s ), 'c' : [f, l, s], 'full' : full }]
    return out

def cut( l, n ) :
    if l is None : return None
    return l if numpy.isscalar( l[0] ) else ( list( l[0][:n] ), list( l[1][:n] ) )

def run_case( case, ctx ) :
    warnings.simplefilter( 'ignore' )
    fn, ln, sn = case['c']
    func, n, best = F[fn]
    limits = cut( LIM[ln], n )
    lo = numpy.full( n, -INF ) if limits is None else numpy.zeros( n ) + limits[0]
    hi = numpy.full( n, INF ) if limits is None else numpy.zeros( n ) + limits[1]
    x0 = START[sn]
    if sn == 'atlow' : x0 = [l if l > -INF else 0.1 for l in lo]
    elif sn == 'athigh' : x0 = [h if h < INF else 0.1 for h in hi]
    else : x0 = [min( max( v, l + 0.1 ), h - 0.1 ) if limits is not None and sn != 'int' else v for v, l, h in zip( x0, lo, hi )]
    if sn == 'int' and numpy.any( ( numpy.array( x0 ) > hi ) | ( numpy.array( x0 ) < lo ) ) : return
    for temp in ( 0, 0.3, 3.0 ) :
        if temp and not case['full'] and sn not in ( 'mid', 'diag', 'athigh' ) : continue
        for size in ( 1, [0.5] * n, numpy.full( n, 0.3 ) ) if temp == 0 else ( 1, ) :
            for form in ( list, numpy.array ) if temp == 0 else ( numpy.array, ) :
                def go( rng ) : execute( ctx, case['key'], func, best, form( x0[:n] ), size, limits, lo, hi, temp, rng, ln, sn )
                if temp == 0 : k = explore( go, maxdev=0 )
                else : k = explore( go, maxdev=2 if case['full'] else 1, maxpoint=40 if case['full'] else 24, ualt=[1e-9, 0.5, 1 - 1e-9] )

def execute( ctx, key, func, best, x0, size, limits, lo, hi, temp, rng, ln, sn ) :
    n = len( x0 )
    seen = []
    def f( p ) :
        p = numpy.array( p, dtype=float )
        v = func( p )
        seen.append( ( p, v ) )
        if not ( numpy.all( p >= lo - 1e-12 ) and numpy.all( p <= hi + 1e-12 ) ) and not seen_nan() :
            ctx.bad( 'evaluated outside limits', '%s not in %s %s' % ( p, lo, hi ) )
        return v
    def seen_nan() : return any( math.isnan( s[1] ) for s in seen[:n+1] )      # a starting vertex without value is moved
    keepx, keeps = numpy.array( x0 ), numpy.array( size )
    keepl = None if limits is None else [numpy.array( l ) for l in limits]
    tag = 't%g:' % temp
    am = AnnealingAmoeba( f, x0, size=size, temp=temp, limits=limits, maxiter=40 if temp else 2000, steps=2 if temp else 10, cooling=0.9, reltol=1e-9 if not temp else 1e-4, abstol=1e-9 if not temp else 1e-4 )
    am.rng = rng
    ctx.true( tag + 'degenerate', abs( numpy.linalg.det( am.simplex[1:] - am.simplex[0] ) ) > 0 )
    its = [0]
    def consistent( where ) :
        ctx.trans()
        for k in range( n + 1 ) :
            v = func( am.simplex[k] )
            if not ( v == am.values[k] or ( math.isnan( v ) and not math.isfinite( am.values[k] ) ) ) :
                ctx.bad( tag + 'vertex value' + where, 'vertex %d %s has %g, not %g' % ( k, am.simplex[k], am.values[k], v ) )
        fin = [s for s in seen if not math.isnan( s[1] )]
        if len( fin ) == 0 : return
        low = min( s[1] for s in fin )
        ctx.true( tag + 'optimum not lowest' + where, am.fopt == low, 'fopt %g, lowest seen %g' % ( am.fopt, low ) )
        ctx.true( tag + 'optimum parameters' + where, func( am.xopt ) == am.fopt, 'func( %s ) = %g, not %g' % ( am.xopt, func( am.xopt ), am.fopt ) )
        sc = 1 + max( numpy.max( numpy.abs( s[0] ) ) for s in seen )
        ctx.true( tag + 'sum' + where, numpy.all( numpy.abs( am.sum - am.simplex.sum( axis=0 ) ) <= 1e-6 * sc ) )
    def cb( p ) :
        its[0] += 1
        if its[0] <= 60 : consistent( '' )
        return p
    am.callback = cb
    consistent( ' start' )
    ok = True
    try : par = am.minimize()
    except ConvergenceError :
        ok = False
        ctx.note( 'no convergence' )
    consistent( ' end' )
    ctx.ev(); ctx.trace()
    ctx.near( tag + 'start changed', x0, keepx, 0, 0 )
    ctx.near( tag + 'size changed', size, keeps, 0, 0 )
    if limits is not None : ctx.true( tag + 'limits changed', all( numpy.array_equal( a, b ) for a, b in zip( limits, keepl ) ) )
    if ok :
        ctx.near( tag + 'returned', par, am.xopt, 0, 0 )
        ctx.true( tag + 'worse than start', am.fopt <= min( [s[1] for s in seen[:n+1] if not math.isnan( s[1] )] + [INF] ) )
        if temp == 0 and limits is None and best is not None :
            ctx.near( tag + 'minimum', par, best, 0, 2e-2 )
    if temp == 0 : ctx.true( tag + 'converges', ok or ln != 'none' or math.isnan( func( seen[0][0] ) ) )
    ctx.true( tag + 'iterations', am.iter <= ( 110 if temp else 2002 ), '%d' % am.iter )
    ctx.outcome( ( numpy.round( am.xopt, 3 ), ok ) )
