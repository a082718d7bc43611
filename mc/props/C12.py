""" C12 gradients of the log likelihood """
import numpy, math, itertools
import BayesicFitting as B
from lik import *

LEVEL = 'exploration'
RULE = ( 'every error distribution (and mixtures of two) x problem x weights x accuracies x parameter vectors x hyper parameters x every non-empty subset of '
         'the parameters and hyper parameters; the gradient is compared with Richardson differences of the documented log likelihood' )
ASSUME = ['points where the likelihood is differentiable']
BOUNDS = { 'quick' : 'all combinations; all subsets up to 5 indices, otherwise subsets of size 1, (2) and all-but-one', 'thorough' : 'all combinations; all subsets up to 10 indices' }
BUDGET = { 'quick' : 120, 'thorough' : 900 }

def cases( tier ) :
    top = 5 if tier == 'quick' else 10
    out = [{ 'key' : 'G.%s.%s.w%s.a%s' % c, 't' : 'G', 'c' : list( c ), 'top' : top } for c in classic_combos()]
    for a in XYACC :
        for w in WGT :
            for m in ( 'line','comp' ) : out += [{ 'key' : 'XY.%s.%s.%s' % ( a, w, m ), 't' : 'XY', 'c' : [a, w, m], 'top' : top }]
    return out

def subsets( np, nh, top, drop=() ) :
    idx = [k for k in list( range( np ) ) + list( range( -nh, 0 ) ) if k not in drop]
    n = len( idx )
    if n <= top : sizes = range( 1, n + 1 )
    else : sizes = sorted( { 1, n - 1, n } | ( { 2 } if n < 8 else set() ) )
    for k in sizes :
        for c in itertools.combinations( idx, k ) : yield list( c )

def compare( ctx, e, p, pars, np, nh, grad, top, alts, drop=() ) :
    keep = pars.copy()
    g = dict( zip( list( range( np ) ) + list( range( -nh, 0 ) ), grad ) )
    ok = numpy.isfinite( grad )
    if not numpy.any( ok ) : ctx.note( 'no_reference' ) ; return
    drop = list( drop ) + [k for k in g if not math.isfinite( g[k] )]      # no reliable reference
    sc = 1e-4 * max( 1.0, numpy.max( numpy.abs( grad[ok] ) ) )
    for fi in subsets( np, nh, top, drop ) :
        exp = [g[k] for k in fi]
        ctx.near( 'partial', e.partialLogL( p, pars, numpy.array( fi, dtype=int ) ), exp, 0, sc, ( fi, pars ) )
        ctx.near( 'partial-list', e.partialLogL( p, pars, fi ), exp, 0, sc, ( fi, pars ) ) if len( fi ) > np else None
        if len( fi ) != 2 : ctx.near( 'alt', e.partialLogL_alt( p, pars, numpy.array( fi, dtype=int ) ), exp, 0, sc, ( fi, pars ) )
        if len( fi ) >= np + nh - 1 : ctx.near( 'numeric', e.numPartialLogL( p, pars, numpy.array( fi, dtype=int ) ), exp, 0, 10 * sc, ( fi, pars ) )
        # the contributions per datum add up to the gradient, given the mock data or not
        for kw in ( {}, { 'mockdata' : p.result( pars[:p.npars] ) } ) :
            for fx in ( fi, numpy.array( fi, dtype=int ) ) :
                if len( fi ) not in ( 1, np + nh, np + nh - 1 ) and ( kw or fx is fi ) : continue
                got = [numpy.sum( v ) for v in e.nextPartialData( p, pars, fx, **kw )]
                if ctx.eq( 'data-count', len( got ), len( fi ), ( fi, pars ) ) : ctx.near( 'data', got, exp, 0, sc, ( fi, pars ) )
        ctx.near( 'pars-changed', pars, keep, 0, 0 )
    # per datum
    fi = list( range( np ) ) + list( range( -nh, 0 ) )
    ctx.outcome( [g[k] for k in fi] )

def run_case( case, ctx ) :
    c = case['c']
    if case['t'] == 'G' :
        d, pr, w, a = c
        p, wgt, acc = makeproblem( pr, w, a )
        e = makedist( d )
        parlist = list( MODEL[pr][3] )
        if pr == 'line' and ( 'laplace' not in d ) : parlist += [A( 0.5, 0.4 ), A( 0.9, 0.0 )]        # a residual of zero : y[0], y[4]
        for ip, par in enumerate( parlist ) :
            if pr == 'count' and par[0] == 0 : continue                 # the likelihood jumps there
            np = len( par )
            hlist = [h for h in hyps( d ) if '+' not in d or 0 < h[-1] < 1]
            if '+' in d and case['top'] <= 5 :
                hlist = hlist[:6] if pr in ( 'line','cyc' ) else hlist[:2]
            if d in ( 'gauss+gauss','gauss+laplace' ) and pr == 'line' : hlist += [[0.01,0.02,0.3],[0.02,0.015,0.6]]     # likelihoods underflow
            for hy in hlist :
                if '+' in d and not 0 < hy[-1] < 1 : continue
                pars = numpy.concatenate( ( par, hy ) )
                ref = refdata( pr, d, par, hy, wgt, acc )
                if not numpy.all( numpy.isfinite( ref ) ) : continue
                if pr in ( 'line','cyc','comp','npar0','orbit','soft' ) :
                    r = refresid( pr, par ).ravel()
                    kink = ( 'laplace' in d or any( q[0] == 'expon' and q[1][1] < 2 for q in parts( d, hy ) ) ) and numpy.min( numpy.abs( r ) ) < 1e-2
                    for q in parts( d, hy ) :
                        if q[0] == 'uniform' :
                            s = q[1][0] if acc is None else flat( acc, refresid( pr, par ).shape )
                            if numpy.min( numpy.abs( numpy.abs( r ) - s ) ) < 5e-3 : kink = True
                    if kink : continue
                    cy = MODEL[pr][5]
                    if pr == 'cyc' and numpy.min( numpy.abs( numpy.abs( r ) - 3.0 ) ) < 0.02 : continue
                f = lambda v : numpy.sum( refdata( pr, d, v[:np], v[np:], wgt, acc ) )
                grad = ngrad( f, pars )
                compare( ctx, e, p, pars, np, len( hy ), grad, case['top'], True, scaleindex( d, hy ) if acc is not None else () )
    else :
        a, w, m = c
        p = xyproblem( a, w, m )
        e = B.Gauss2dErrorDistribution()
        for par in xypars( m ) :
            for s in ( 0.8, 1.7 ) :
                pars = numpy.append( par, s )
                np = len( par )
                f = lambda v : numpy.sum( xyref( m, a, v[:np], v[np], WGT[w] ) )
                compare( ctx, e, p, pars, np, 1, ngrad( f, pars ), case['top'], True )

def scaleindex( d, hy ) :
    """ indices of scales that are replaced by the accuracy : dL/ds is documented as not implemented """
    out, k = [], 0
    for n, h in parts( d, hy ) :
        if n != 'gauss' and NH[n] : out += [k - len( hy )]
        k += len( h )
    return out

def parts( d, hy ) :
    if '+' not in d : return [( d, hy )]
    a, b = d.split( '+' )
    return [( a, hy[:NH[a]] ), ( b, hy[NH[a]:NH[a]+NH[b]] )]
