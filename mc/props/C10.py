""" C10 a prior depends only on its present attributes, not on how it got there """
import math, numpy
import rprior as R
import BayesicFitting as B

LEVEL = 'model_checking'
RULE = ( 'breadth-first search over the operations setLimits, unsetLimits, setAttributes( limits, scale ), copy and assignment of a '
         'scale from every constructor form; in every reached state all queries are compared with the reference distribution that '
         'has the same limits and scale; rejected operations leave the state as it was; copies do not follow their original' )
ASSUME = ['one-sided limits on an unbound Uniform/Jeffreys prior only for limit bookkeeping']
BOUNDS = { 'quick' : 'depth 3', 'thorough' : 'depth 5' }
BUDGET = { 'quick' : 100, 'thorough' : 700 }

def starts() :
    out = {}
    for k, cls in ( ( 'Laplace', B.LaplacePrior ), ( 'Gauss', B.GaussPrior ), ( 'Cauchy', B.CauchyPrior ) ) :
        out[k + '.free'] = ( lambda cls=cls : cls( center=0.3, scale=1.4 ), R.Ref( k, 0.3, 1.4 ) )
        out[k + '.lim'] = ( lambda cls=cls : cls( center=0.3, scale=1.4, limits=[-1,2] ), R.Ref( k, 0.3, 1.4, -1, 2 ) )
        out[k + '.low'] = ( lambda cls=cls : cls( center=0.3, scale=1.4, limits=[-1,None] ), R.Ref( k, 0.3, 1.4, -1, None ) )
        out[k + '.circ'] = ( lambda cls=cls : cls( center=0.5, scale=1.4, limits=[-1,2], circular=True ), R.Ref( k, 0.5, 1.4, -1, 2, True ) )
        out[k + '.per'] = ( lambda cls=cls : cls( center=0.5, scale=1.4, circular=3.0 ), R.Ref( k, 0.5, 1.4, -1.0, 2.0, True ) )
    out['Uniform.free'] = ( lambda : B.UniformPrior(), R.Ref( 'Uniform' , 0, 1 ) )
    out['Uniform.lim'] = ( lambda : B.UniformPrior( limits=[-1,2] ), R.Ref( 'Uniform', 0, 1, -1, 2 ) )
    out['Uniform.circ'] = ( lambda : B.UniformPrior( limits=[-1,2], circular=True ), R.Ref( 'Uniform', 0, 1, -1, 2, True ) )
    out['Uniform.per'] = ( lambda : B.UniformPrior( circular=3.0 ), R.Ref( 'Uniform', 0, 1, 0.0, 3.0, True ) )
    out['CircUniform'] = ( lambda : B.CircularUniformPrior( limits=[-1,2] ), R.Ref( 'Uniform', 0, 1, -1, 2, True ) )
    out['CircUniform.per'] = ( lambda : B.CircularUniformPrior( circular=3.0 ), R.Ref( 'Uniform', 0, 1, 0.0, 3.0, True ) )
    out['Exponential'] = ( lambda : B.ExponentialPrior( scale=1.4 ), R.Ref( 'Exponential', 0, 1.4, 0.0 ) )
    out['Exponential.hi'] = ( lambda : B.ExponentialPrior( scale=1.4, hilimit=3.0 ), R.Ref( 'Exponential', 0, 1.4, 0.0, 3.0 ) )
    out['Jeffreys.free'] = ( lambda : B.JeffreysPrior(), R.Ref( 'Jeffreys', 0, 1 ) )
    out['Jeffreys.lim'] = ( lambda : B.JeffreysPrior( limits=[0.1,20] ), R.Ref( 'Jeffreys', 0, 1, 0.1, 20 ) )
    return out
STARTS = starts()

def opsfor( kind, circ ) :
    pos = kind in ( 'Exponential','Jeffreys' )
    A, Bb = ( 0.5, 4.0 ) if pos else ( -0.7, 1.6 )
    C = 9.0 if pos else 5.0
    ops = [( 'lim', ( A, Bb ) ), ( 'lim', ( A + 0.4, C ) ), ( 'copy', ), ( 'deep', ( A, C ) )]
    ops += [( 'att', ( A, C ), None )]
    ops += [( 'bad', ( Bb, A ) )]
    if pos : ops += [( 'bad', ( -1.0, Bb ) )]
    if not circ :
        ops += [( 'lim', ( A, None ) ), ( 'lim', ( None, Bb ) ), ( 'lim', None ), ( 'lim', ( None, None ) ), ( 'unset', )]
    if kind in ( 'Laplace','Gauss','Cauchy','Exponential' ) :
        ops += [( 'att', None, 0.6 ), ( 'att', ( A, Bb ), 2.5 )]
    return ops

def cases( tier ) :
    out = []
    depth = 3 if tier == 'quick' else 5
    for nm in STARTS :
        r = STARTS[nm][1]
        for i in range( len( opsfor( r.kind, r.circ ) ) ) :
            out += [{ 'key' : '%s.op%d' % ( nm, i ), 'start' : nm, 'first' : i, 'depth' : depth }]
    return out

def apply( p, r, op ) :
    """ returns ( prior, ref, rejected ok ) """
    n = R.Ref( r.kind, r.c, r.s, r.lo, r.hi, r.circ )
    d0, d1 = R.DOM[r.kind]
    def setl( l ) :
        n.lo, n.hi = ( d0, d1 ) if l is None else ( d0 if l[0] is None else l[0], d1 if l[1] is None else l[1] )
    if op[0] == 'lim' :
        p.setLimits( None if op[1] is None else list( op[1] ) )
        setl( op[1] )
    elif op[0] == 'unset' :
        p.unsetLimits()
        setl( None )
    elif op[0] == 'att' :
        kw = {}
        if op[1] is not None : kw['limits'] = list( op[1] )
        if op[2] is not None : kw['scale'] = op[2]
        p.setAttributes( **kw )
        if op[1] is not None : setl( op[1] )
        if op[2] is not None : n.s = op[2]
    elif op[0] == 'copy' :
        p = p.copy()
    elif op[0] == 'deep' :              # change a copy; the original does not follow
        q = p.copy()
        q.setLimits( list( op[1] ) )
    elif op[0] == 'bad' :
        try :
            p.setLimits( list( op[1] ) )
            return p, n, False
        except ValueError : pass
    return p, n, True

def run_case( case, ctx ) :
    import io, contextlib
    mk, r0 = STARTS[case['start']]
    ops = opsfor( r0.kind, r0.circ )
    frontier = [( case['first'], )]
    for depth in range( case['depth'] ) :
        nxt = []
        for h in frontier :
            p, r = mk(), r0
            ok = True
            with numpy.errstate( all='ignore' ), contextlib.redirect_stdout( io.StringIO() ) :
                for i in h :
                    p, r, acc = apply( p, r, ops[i] )
                    if not acc :
                        ctx.bad( 'bad limits accepted', '%s %s' % ( case['start'], [ops[j] for j in h] ) )
                        ok = False
                ctx.trans()
                ctx.trace()
                lab = '%s after %s' % ( case['start'], [ops[i] for i in h] )
                ok &= R.probe( ctx, '', p, r, lab, full=( depth < 2 ) or r.proper )
            ctx.outcome( [str( x ) for x in r.key()] + [case['start']] )
            if ok : nxt += [h + ( i, ) for i in range( len( ops ) )]
        # every history is continued ( real objects may hide state ) up to depth 3; deeper: from the last two operations only
        if depth >= 2 and len( nxt ) > 3000 :
            seen, keep = set(), []
            for h in nxt :
                k = h[-3:]
                if k in seen : continue
                seen.add( k )
                keep += [h]
            nxt = keep
        frontier = nxt
