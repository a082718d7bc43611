""" C07 histories of growing, shrinking and varying dynamic models """
import numpy, itertools
import BayesicFitting as B
from choice import ChoiceRNG, explore
from core import digest

LEVEL = 'model_checking'
RULE = ( 'breadth-first over all histories of grow / shrink / vary / shuffle / copy / new parameter values, all outcomes of the (controlled) random '
         'draws up to one deviation per operation, on dynamic models alone and at every place in a chain; a reference (list of parameters per part and the '
         'structure of the dynamic part) is kept in lock-step and compared after every step' )
ASSUME = ['random draws take values of a fixed menu (extremes, middle, a fixed stream)']
BOUNDS = { 'quick' : 'depth 3 (periodic splines, splines and trees in a chain: 2)', 'thorough' : 'depth 4 (periodic splines, splines and trees in a chain: 3)' }
BUDGET = { 'quick' : 200, 'thorough' : 1500 }

X = numpy.array( [-0.9,-0.35,0.0,0.2,0.55,0.95] )

def g( x, p ) : return p[0] * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 )

def gaussp() :
    m = B.GaussModel()
    m.setLimits( lowLimits=[0.5,-1.0,0.3], highLimits=[2.0,1.0,1.5] )
    return m

def expg() :
    m = B.ExpModel() + B.PolynomialModel( 0 )
    m.setLimits( lowLimits=[0.5,-1.0,-2.0], highLimits=[2.0,1.0,1.0] )
    return m

def lim( m, lo=-2.0, hi=3.0 ) :
    m.setLimits( lowLimits=[lo], highLimits=[hi] )
    return m

# ---- dynamic parts : ( make, kind, min, max, data )
DYN = {
  'poly'  : ( lambda : lim( B.PolynomialDynamicModel( 1, minDegree=0, maxDegree=2 ) ), 'poly' ),
  'poly0' : ( lambda : lim( B.PolynomialDynamicModel( 0 ) ), 'poly' ),
  'harm'  : ( lambda : lim( B.HarmonicDynamicModel( 1, maxOrder=2, period=1.7 ) ), 'harm' ),
  'rep'   : ( lambda : B.RepeatingModel( 1, gaussp(), minComp=1, maxComp=3 ), 'rep' ),
  'rep0'  : ( lambda : B.RepeatingModel( 0, gaussp(), minComp=0, maxComp=2 ), 'rep' ),
  'same'  : ( lambda : B.RepeatingModel( 1, gaussp(), minComp=0, maxComp=3, same=[2] ), 'rep' ),
  'same0' : ( lambda : B.RepeatingModel( 2, gaussp(), minComp=0, same=[0,1] ), 'rep' ),
  'repc'  : ( lambda : B.RepeatingModel( 1, expg(), minComp=0, maxComp=2 ), 'rep' ),
  'spl3'  : ( lambda : lim( B.SplinesDynamicModel( knots=[-1.0,-0.3,0.4,1.0], maxKnots=5 ) ), 'spl' ),
  'spl1'  : ( lambda : lim( B.SplinesDynamicModel( knots=[-1.0,0.1,1.0], order=1 ) ), 'spl' ),
  'splp'  : ( lambda : lim( B.SplinesDynamicModel( knots=[-1.0,-0.6,-0.2,0.1,0.4,1.0], order=2, border=1, minKnots=5, maxKnots=7 ) ), 'spl' ),
  'spld'  : ( lambda : lim( B.SplinesDynamicModel( knots=[-1.0,0.0,1.0], minDistance=0.7 ) ), 'spl' ),
  'tree'  : ( lambda : B.DecisionTreeModel( ndim=1, depth=1, kdim=[0], split=0.4 ), 'tree' ),
  'tree2' : ( lambda : B.DecisionTreeModel( ndim=1, depth=2, kdim=[0,0,0], split=[0.4,0.6,0.3] ), 'tree' ),
  'treem' : ( lambda : B.DecisionTreeModel( ndim=3, depth=1, kdim=[1], split=0.4, itypes=[0,1,3] ), 'tree' ),
  'tree0' : ( lambda : B.DecisionTreeModel( ndim=1 ), 'tree' ),
}
PLACES = ['D','ED','DE','EDE']
XT = numpy.array( [[0,1,5],[1,0,2],[3,1,7],[2,0,0],[5,1,3],[4,0,6]] )        # float, boolean, categorial

def static() :
    m = B.ExpModel()
    m.setPrior( 0, prior=B.UniformPrior( limits=[0.1,7.0] ) )
    m.setPrior( 1, prior=B.GaussPrior( center=0.3, scale=0.5 ) )
    return m

def cases( tier ) :
    out = []
    for d in DYN :
        for p in PLACES :
            if d == 'treem' and p != 'D' : continue
            big = ( p != 'D' and DYN[d][1] in ( 'tree','spl' ) ) or d == 'splp'
            out += [{ 'key' : '%s.%s' % ( d, p ), 'd' : d, 'p' : p, 'depth' : ( 3 if tier == 'quick' else 4 ) - big }]
    return out

def parts( m ) :
    out = []
    while m is not None :
        out += [m]
        m = m._next
    return out

# ---- tree as nested tuples
def tree( t ) :
    if t.isLeaf() : return 1
    return ( t.dimension, t.split, t.mask, tree( t.left ), tree( t.rite ) )

def leaves( t ) :
    return 1 if t == 1 else leaves( t[3] ) + leaves( t[4] )

def branches( t ) :
    return 0 if t == 1 else 1 + branches( t[3] ) + branches( t[4] )

def leafpaths( t, path='' ) :
    if t == 1 : return [path]
    return leafpaths( t[3], path + 'L' ) + leafpaths( t[4], path + 'R' )

def treeresult( t, x, pars ) :
    res = numpy.zeros( len( x ) )
    def rec( t, idx, k ) :
        if t == 1 :
            res[idx] = pars[k]
            return k + 1
        if len( idx ) :
            xd = x[idx] if x.ndim == 1 else x[idx,t[0]]
            if t[1] is None : c = ( xd & t[2] ) != 0 if t[2] >= 2 else xd == t[2]
            else : c = xd > xd.min() + ( xd.max() - xd.min() ) * t[1]
            a, b = idx[c], idx[~c]
        else :
            a, b = idx, idx
        k = rec( t[3], a, k )
        return rec( t[4], b, k )
    rec( t, numpy.arange( len( x ) ), 0 )
    return res

class State( object ) :
    """ snapshot of a chain, as seen from outside """
    def __init__( self, m ) :
        self.pp = parts( m )
        self.np = [q.npbase for q in self.pp]
        self.pars = numpy.array( m.parameters, dtype=float )
        self.struct = [struct( q ) for q in self.pp]
        self.names = list( m.parNames ) if len( self.pp ) == 1 else [m.getParameterName( k ) for k in range( m.npars )] if False else None
        self.npars = m.npars

    def slices( self ) :
        out, o = [], 0
        for n in self.np :
            out += [self.pars[o:o+n]]
            o += n
        return out

    def key( self ) :
        return digest( [self.np, self.pars, [str( s ) for s in self.struct]] )

def struct( q ) :
    if isinstance( q, B.SplinesDynamicModel ) : return ( 'spl', tuple( q.knots ), q.order, q.border )
    if isinstance( q, B.RepeatingModel ) : return ( 'rep', q.ncomp )
    if isinstance( q, B.PolynomialDynamicModel ) : return ( 'poly', q.degree )
    if isinstance( q, B.HarmonicDynamicModel ) : return ( 'harm', q.order )
    if isinstance( q, B.DecisionTreeModel ) : return ( 'tree', tree( q ) )
    return ( 'static', )

def npexpected( q, s ) :
    """ number of parameters that belong to the structure """
    if s[0] == 'spl' : return len( s[1] ) + s[2] - 1 if s[3] == 0 else len( s[1] ) - 1
    if s[0] == 'rep' :
        n = q.model.npars
        ns = 0 if q.same is None else len( q.same )
        return 0 if s[1] == 0 else n + ( s[1] - 1 ) * ( n - ns )
    if s[0] == 'poly' : return s[1] + 1
    if s[0] == 'harm' : return 2 * s[1]
    if s[0] == 'tree' : return leaves( s[1] )
    return 2

def refresult( q, s, x, p ) :
    if s[0] == 'static' : return p[0] * numpy.exp( p[1] * x )
    if s[0] == 'poly' : return sum( p[k] * x ** k for k in range( len( p ) ) )
    if s[0] == 'harm' :
        w = 2 * numpy.pi * x / 1.7
        return sum( p[2*k] * numpy.cos( ( k + 1 ) * w ) + p[2*k+1] * numpy.sin( ( k + 1 ) * w ) for k in range( s[1] ) )
    if s[0] == 'rep' :
        res = numpy.zeros( len( x ) )
        n = q.model.npars
        same = [] if q.same is None else list( q.same )
        idx = [i for i in range( n ) if i not in same]
        cur = None
        o = 0
        for c in range( s[1] ) :
            if c == 0 :
                cur = list( p[:n] )
                o = n
            else :
                for i in idx :
                    cur[i] = p[o]
                    o += 1
            if isinstance( q.model, B.GaussModel ) : res = res + g( x, cur )
            else : res = res + cur[0] * numpy.exp( cur[1] * x ) + cur[2]
        return res
    if s[0] == 'spl' :
        f = B.BasicSplinesModel( knots=list( s[1] ), order=s[2], border=s[3] )
        return f.result( x, p )
    if s[0] == 'tree' : return treeresult( s[1], x, p )

def bounds( q, s ) :
    if s[0] == 'spl' : return q.minKnots, q.maxKnots, len( s[1] )
    if s[0] == 'rep' : return q.minComp, q.maxComp, s[1]
    if s[0] == 'poly' : return q.minDegree, q.maxDegree, s[1]
    if s[0] == 'harm' : return q.minOrder, q.maxOrder, s[1]
    return None, None, branches( s[1] )

def build( case ) :
    mk = DYN[case['d']][0]
    m = None
    for c in case['p'] :
        q = mk() if c == 'D' else static()
        m = q if m is None else m.addModel( q ) or m
    m.parameters = values( m, 0 )
    return m

def values( m, v ) :
    """ parameter values within the limits of each prior """
    return numpy.array( [m.getPrior( k ).unit2Domain( 0.2 + ( 0.37 * k + 0.29 * v ) % 0.6 ) for k in range( m.npars )] )

def invariant( m, st, ctx, what ) :
    ctx.ev()
    for q, s, n in zip( st.pp, st.struct, st.np ) :
        if npexpected( q, s ) != n : ctx.bad( 'number of parameters of a part', '%s: %s has %d expected %d' % ( what, s, n, npexpected( q, s ) ) ); return False
        if s[0] != 'static' :
            nc = { 'spl' : lambda : len( s[1] ), 'rep' : lambda : s[1], 'poly' : lambda : s[1] + 1, 'harm' : lambda : s[1], 'tree' : lambda : branches( s[1] ) }[s[0]]()
            if q.ncomp != nc : ctx.bad( 'number of components', '%s: %s ncomp %s' % ( what, s, q.ncomp ) )
            if s[0] == 'tree' :
                if not q.check() : ctx.bad( 'tree consistency', '%s: %s' % ( what, s ) )
                if q.count() != ( leaves( s[1] ), branches( s[1] ) ) : ctx.bad( 'tree count', '%s %s' % ( what, s ) )
    if sum( st.np ) != m.npars or m.npars != len( m.parameters ) :
        ctx.bad( 'number of parameters of the chain', '%s: %s npars %d len %d' % ( what, st.np, m.npars, len( m.parameters ) ) )
        return False
    if not numpy.all( numpy.isfinite( st.pars ) ) : ctx.bad( 'parameters finite', what )
    # every parameter has a name and the prior of its own part
    for k in range( m.npars ) :
        if not isinstance( m.getParameterName( k ), str ) : ctx.bad( 'parameter name', what )
    o = 0
    for q, s, n in zip( st.pp, st.struct, st.np ) :
        for k in range( n ) :
            pr = m.getPrior( o + k )
            if s[0] == 'static' :
                exp = ( B.UniformPrior, 0.1, 7.0 ) if k == 0 else ( B.GaussPrior, None, None )
                if not isinstance( pr, exp[0] ) or ( exp[1] is not None and ( pr.lowLimit, pr.highLimit ) != exp[1:] ) :
                    ctx.bad( 'prior of a static part', '%s: parameter %d of %d: %s' % ( what, k, n, pr ) )
            v = st.pars[o+k]
            if pr.isOutOfLimits( v ) and s[0] != 'spl' : ctx.bad( 'value within limits', '%s: parameter %d %s limits %s' % ( what, o + k, v, ( pr.lowLimit, pr.highLimit ) ) )
        o += n
    u = m.domain2Unit( st.pars )
    ctx.near( 'unit <-> domain of all parameters', m.unit2Domain( u ), st.pars, 1e-7, 1e-9, what )
    exp = 0.0
    for q, s, p in zip( st.pp, st.struct, st.slices() ) : exp = exp + refresult( q, s, X if m.ndim == 1 else XT, p )
    ctx.near( 'result', m.result( X if m.ndim == 1 else XT, m.parameters ), exp, 1e-9, 1e-11, what )
    pt = m.partial( X if m.ndim == 1 else XT, m.parameters )
    if pt.shape != ( len( X ), m.npars ) : ctx.bad( 'shape of partial', '%s %s' % ( what, pt.shape ) )
    return True

def same( a, b ) :
    return a.np == b.np and numpy.array_equal( a.pars, b.pars ) and a.struct == b.struct

def apply( m, op, rng ) :
    """ op = ( name, index of part ) ; returns ( model, return value ) """
    name, i = op
    if name == 'copy' : return m.copy(), True
    if name == 'pars' :
        m.parameters = values( m, i + 1 )
        return m, True
    q = parts( m )[i]
    off = sum( r.npbase for r in parts( m )[:i] )
    if name == 'grow' : return m, q.grow( offset=off, rng=rng )
    if name == 'shrink' : return m, q.shrink( offset=off, rng=rng )
    if name == 'vary' : return m, q.vary( rng=rng )
    if name == 'shuffle' :
        p = m.parameters.copy()
        m.parameters = q.shuffle( p, off, q.npbase, rng )
        return m, True

def fitmap( q, off, np0, dnp, fi ) :
    """ what the indices of the fitted parameters must be """
    end = off + np0
    if dnp > 0 :
        out = [i if ( i < end ) else i + dnp for i in fi if i >= 0]
        out = sorted( out + list( range( end, end + dnp ) ) )
    else :
        out = [i if i < end + dnp else i + dnp for i in fi if i >= 0 and not ( end + dnp <= i < end )]
    return out + [i for i in fi if i < 0]

def checkstep( m0st, m, op, ret, ctx, what ) :
    st = State( m )
    name, i = op
    if name == 'copy' :
        if not same( m0st, st ) : ctx.bad( 'copy equals', '%s: %s %s' % ( what, m0st.struct, st.struct ) )
        return st
    if name == 'pars' : return st
    q, s0, s1 = st.pp[i], m0st.struct[i], st.struct[i]
    a, b = m0st.slices(), st.slices()
    # the other parts
    if m0st.np[:i] + m0st.np[i+1:] != st.np[:i] + st.np[i+1:] : ctx.bad( name + ' changes size of other part', what )
    else :
        for j in range( len( a ) ) :
            if j != i and not numpy.array_equal( a[j], b[j] ) : ctx.bad( name + ' changes parameters of other part', '%s: %s -> %s' % ( what, m0st.pars, st.pars ) )
            if j != i and m0st.struct[j] != st.struct[j] : ctx.bad( name + ' changes other part', what )
    if name in ( 'grow', 'shrink' ) :
        lo, hi, nc = bounds( q, s0 )
        up = name == 'grow'
        can = ( hi is None or nc < hi ) if up else ( nc > ( 0 if lo is None else lo ) )
        if not can and ret : ctx.bad( name + ' beyond the limits', what )
        if can and not ret and s0[0] in ( 'rep','poly','harm' ) : ctx.bad( name + ' refused', what )
        if not ret :
            if not same( m0st, st ) : ctx.bad( name + ' refused but changed', '%s: %s %s -> %s %s' % ( what, m0st.struct, m0st.pars, st.struct, st.pars ) )
            return st
        lo, hi, nc1 = bounds( q, s1 )
        if s0[0] != 'tree' and nc1 != nc + ( 1 if up else -1 ) : ctx.bad( name + ' number of components', '%s %s %s' % ( what, s0, s1 ) )
        if s0[0] == 'tree' and ( nc1 != nc + 1 if up else nc1 >= nc ) : ctx.bad( name + ' number of components', '%s %s %s' % ( what, s0, s1 ) )
        old, new = ( a[i], b[i] )
        if s0[0] in ( 'rep','poly','harm' ) :
            k = min( len( old ), len( new ) )
            if not numpy.array_equal( old[:k], new[:k] ) : ctx.bad( name + ' keeps the other components', '%s: %s -> %s' % ( what, old, new ) )
        if s0[0] == 'spl' :
            kl, ks = ( s1[1], s0[1] ) if up else ( s0[1], s1[1] )
            if not set( ks ) < set( kl ) or list( kl ) != sorted( kl ) or kl[0] != ks[0] or kl[-1] != ks[-1] : ctx.bad( name + ' knots', '%s: %s %s' % ( what, s0, s1 ) )
            if up :
                kk = [k for k in range( len( kl ) ) if kl[k] not in ks][0]
                if min( kl[kk] - kl[kk-1], kl[kk+1] - kl[kk] ) < q.minDistance : ctx.bad( 'distance of knots', what )
            # parameters away from the change are kept, in order
            k = 0
            while k < min( len( old ), len( new ) ) and old[k] == new[k] : k += 1
            e = 0
            while e < min( len( old ), len( new ) ) and old[-1-e] == new[-1-e] : e += 1
            if k + e < min( len( old ), len( new ) ) - 1 : ctx.bad( name + ' keeps the other parameters', '%s: %s -> %s' % ( what, old, new ) )
        if s0[0] == 'tree' :
            po, pn = dict( zip( leafpaths( s0[1] ), old ) ), dict( zip( leafpaths( s1[1] ), new ) )
            for p in po :
                if p in pn and po[p] != pn[p] and not ( not up and any( o.startswith( p ) and o != p for o in po ) ) :
                    ctx.bad( name + ' keeps the other leaves', '%s: %s %s -> %s %s leaf %s' % ( what, s0, old, s1, new, p ) )
        # fit index bookkeeping
        np0 = m0st.np[i]
        dnp = st.np[i] - np0
        off = sum( m0st.np[:i] )
        others = [k for k in range( m0st.npars ) if not off <= k < off + np0]
        mine = list( range( off, off + np0 ) )
        for r in range( len( others ) + 1 ) :
            for sub in itertools.combinations( others, r ) :
                for hyp in ( [], [-1], [-2,-1] ) :
                    fi = sorted( mine + list( sub ) ) + hyp
                    got = q.alterFitindex( numpy.array( fi, dtype=int ), np0, dnp, off )
                    exp = fitmap( q, off, np0, dnp, fi )
                    ctx.ev()
                    if list( got ) != exp : ctx.bad( 'fit index after ' + name, '%s: %s -> %s expected %s' % ( what, fi, list( got ), exp ) )
    if name == 'vary' :
        if not ret :
            if not same( m0st, st ) : ctx.bad( 'vary refused but changed', what )
        else :
            if not numpy.array_equal( m0st.pars, st.pars ) : ctx.bad( 'vary changes parameters', what )
            if s0[0] == 'spl' :
                d = [k for k in range( len( s0[1] ) ) if s0[1][k] != s1[1][k]]
                if len( s0[1] ) != len( s1[1] ) or len( d ) > 1 or list( s1[1] ) != sorted( s1[1] ) or ( d and d[0] in ( 0, len( s0[1] ) - 1 ) ) :
                    ctx.bad( 'vary knots', '%s: %s %s' % ( what, s0, s1 ) )
            if s0[0] == 'tree' and leafpaths( s0[1] ) != leafpaths( s1[1] ) : ctx.bad( 'vary tree shape', what )
    if name == 'shuffle' :
        if not numpy.array_equal( numpy.sort( a[i] ), numpy.sort( b[i] ) ) : ctx.bad( 'shuffle permutes', '%s: %s -> %s' % ( what, a[i], b[i] ) )
        ctx.near( 'shuffle keeps the result', refresult( q, s1, X, b[i] ), refresult( q, s0, X, a[i] ), 1e-9, 1e-11, what )
    return st

def ops( case ) :
    out = [( 'copy', 0 ), ( 'pars', 0 )]
    for i, c in enumerate( case['p'] ) :
        if c != 'D' : continue
        out += [( 'grow', i ), ( 'shrink', i )]
        kind = DYN[case['d']][1]
        if kind in ( 'spl','tree' ) : out += [( 'vary', i )]
        if kind == 'rep' : out += [( 'shuffle', i )]
    return out

def run_case( case, ctx ) :
    alph = ops( case )
    def replay( hist ) :
        m = build( case )
        for op, prefix in hist :
            m, r = apply( m, op, ChoiceRNG( prefix, start=0.31, limit=3000 ) )
        return m
    m = build( case )
    st = State( m )
    invariant( m, st, ctx, 'start' )
    frontier = [()]
    seen = { st.key() }
    ctx.outcome( st.key() )
    for depth in range( case['depth'] ) :
        nxt = []
        for hist in frontier :
            for op in alph :
                def run( rng ) :
                    m = replay( hist )
                    old = m
                    s0 = State( m )
                    what = '%s then %s%s' % ( ' '.join( '%s%d%s' % ( o[0], o[1], list( p ) if p else '' ) for o, p in hist ), op, rng.prefix if any( rng.prefix ) else '' )
                    m, ret = apply( m, op, rng )
                    ctx.trans()
                    ctx.trace()
                    s1 = checkstep( s0, m, op, ret, ctx, what )
                    if not invariant( m, s1, ctx, what ) : return
                    if m is not old and not same( s0, State( old ) ) : ctx.bad( 'original changed by copying', what )
                    k = s1.key() + ( 'c' if op[0] == 'copy' else '' )
                    if k not in seen :
                        seen.add( k )
                        ctx.outcome( s1.key() )
                        nxt.append( hist + ( ( op, tuple( t[1] for t in rng.trace ) ), ) )
                explore( run, maxdev=1, maxpoint=5, start=0.31, limit=3000, full=4 )
                if len( ctx.bads ) > 25 : return
        frontier = nxt
