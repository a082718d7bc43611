""" C09 priors: unit interval <-> domain, density, limits, all from one distribution """
import math, numpy
import rprior as R
import BayesicFitting as B

LEVEL = 'exploration'
RULE = ( 'every prior class x centers x scales x one- and two-sided limits x circular variants (constructor forms); all query '
         'methods at 10 unit values, edges and points outside, scalar and array, against the truncated distribution computed '
         'from its cdf' )
ASSUME = ['improper priors (unbound Uniform, Jeffreys) only for their limit bookkeeping', 'numeric derivatives within 1e-4']
BOUNDS = { 'quick' : '5 centers and scales, 16 limit sets', 'thorough' : '23 centers and scales, 36 limit sets' }
BUDGET = { 'quick' : 60, 'thorough' : 300 }

CS = [ ( 0.0, 1.0 ), ( 0.7, 0.4 ), ( -2.3, 5.0 ), ( 10.0, 0.1 ), ( 0.0, 30.0 ) ]
LIM = [ None, ( None, None ), ( None, 1.2 ), ( -0.8, None ), ( 0.3, 2.9 ), ( -3.0, -0.5 ), ( -1.5, 1.5 ), ( -2.0, 3.0 ),
        ( 0.0, 1.0 ), ( 1.0, 100.0 ), ( 0.01, None ), ( -0.1, 0.05 ), ( -5, 5 ), ( 2, 3 ), ( -7.5, 0.1 ), ( None, -1.0 ) ]

def cases( tier ) :
    out = []
    cs, lm = CS, LIM
    if tier != 'quick' :
        cs = CS + [( c, s ) for c in ( 0.0, 0.7, -2.3, 10.0 ) for s in ( 0.1, 0.4, 1.0, 5.0, 30.0 ) if ( c, s ) not in CS]
        g = [-7.5, -2.0, -0.3, 0.0, 0.4, 1.7, 6.0]
        lm = LIM + [( a, b ) for i, a in enumerate( g ) for b in g[i+1:] if ( a, b ) not in LIM]
    for kind in ( 'Uniform','Jeffreys','Exponential','Laplace','Gauss','Cauchy' ) :
        for i, ( c, s ) in enumerate( cs ) :
            if kind in ( 'Uniform','Jeffreys' ) and i : continue
            for j, l in enumerate( lm if kind not in ( 'Jeffreys','Exponential' ) else lm + [( 0.2,3.0 ),( 0.05,None ),( None, 40.0 )] ) :
                if l is not None and kind not in ( 'Uniform','Jeffreys' ) :          # limits around nothing but a far tail: no mass in 64 bits
                    if not R.Ref( kind, c if kind != 'Exponential' else 0, s, l[0], l[1] ).lims()[1] > 1e-3 : continue
                if l is not None and kind in ( 'Jeffreys','Exponential' ) and ( ( l[0] is not None and l[0] < 0 ) or ( l[1] is not None and l[1] <= 0 ) ) : continue
                out += [{ 'key' : '%s.%d.%d.n' % ( kind, i, j ), 'kind' : kind, 'c' : c, 's' : s, 'l' : l, 'circ' : False }]
                if l is not None and l[0] is not None and l[1] is not None and kind not in ( 'Jeffreys','Exponential' ) :
                    out += [{ 'key' : '%s.%d.%d.c' % ( kind, i, j ), 'kind' : kind, 'c' : c, 's' : s, 'l' : l, 'circ' : True }]
            if kind not in ( 'Jeffreys','Exponential' ) :
                for per in ( 1.0, 6.283185307179586, 3 ) :
                    out += [{ 'key' : '%s.%d.p%d' % ( kind, i, per ), 'kind' : kind, 'c' : c, 's' : s, 'l' : None, 'circ' : per }]
    return out

def build( case ) :
    """ returns list of ( real prior, reference ), one for each way of construction """
    k, c, s, l, circ = case['kind'], case['c'], case['s'], case['l'], case['circ']
    lo, hi = ( None, None ) if l is None else l
    out = []
    kw = {} if l is None else { 'limits' : list( l ) }
    if k == 'Uniform' :
        if circ is False :
            out += [( B.UniformPrior( **kw ), R.Ref( k, 0, 1, lo, hi ) )]
            p = B.UniformPrior()
            p.setLimits( None if l is None else list( l ) )
            out += [( p, out[0][1] )]
        elif circ is True :
            r = R.Ref( k, 0, 1, lo, hi, True )
            out += [( B.UniformPrior( circular=True, **kw ), r ), ( B.CircularUniformPrior( **kw ), r ), ( B.CircularUniformPrior( limits=numpy.array( l ) ), r )]
        else :
            r = R.Ref( k, 0, 1, 0.0, circ, True )
            out += [( B.UniformPrior( circular=circ ), r ), ( B.CircularUniformPrior( circular=circ ), r )]
    elif k == 'Jeffreys' :
        out += [( B.JeffreysPrior( **kw ), R.Ref( k, 0, 1, lo, hi ) )]
    elif k == 'Exponential' :
        r = R.Ref( k, 0, s, 0.0 if lo is None else lo, hi )
        if lo is None :
            out += [( B.ExponentialPrior( scale=s, hilimit=math.inf if hi is None else hi ), r )]
        p = B.ExponentialPrior( scale=s )
        p.setLimits( None if l is None else list( l ) )
        out += [( p, r )]
    else :
        cls = { 'Laplace' : B.LaplacePrior, 'Gauss' : B.GaussPrior, 'Cauchy' : B.CauchyPrior }[k]
        if circ is False :
            r = R.Ref( k, c, s, lo, hi )
            out += [( cls( center=c, scale=s, **kw ), r )]
            p = cls( center=c, scale=s )
            p.setLimits( None if l is None else list( l ) )
            out += [( p, r )]
        elif circ is True :
            cc = c if c != 0 else 0.5 * ( lo + hi )
            out += [( cls( center=c, scale=s, circular=True, **kw ), R.Ref( k, cc, s, lo, hi, True ) )]
        else :
            out += [( cls( center=c, scale=s, circular=circ ), R.Ref( k, c, s, c - circ / 2, c + circ / 2, True ) )]
    return out

def run_case( case, ctx ) :
    for i, ( p, r ) in enumerate( build( case ) ) :
        lab = '%s %s' % ( str( p ), r.key() )
        with numpy.errstate( all='ignore' ) :
            R.probe( ctx, '', p, r, lab )
            R.probe( ctx, 'copy-', p.copy(), r, lab )
        ctx.trans()
        ctx.outcome( [str( x ) for x in r.key()] )
