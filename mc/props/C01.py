""" C01 compound models evaluate as the expression that built them """
import itertools, numpy
import expr as E
import BayesicFitting as B

LEVEL = 'exploration'
RULE = ( 'all binary expression trees with up to N leaves over + - * / |, all operator assignments, leaf alphabets, '
         'and binary / in-place / method construction; value, and operands, compared with the reference evaluation of the tree' )
ASSUME = ['evaluation points and leaf parameters are fixed values away from poles',
          'leaf alphabet: polynomial, gauss, exponential, logistic, constant, gauss with fixed parameter, polynomial with a model as fixed parameter, gauss and logistic with two (compound) models as fixed parameters, 2-d surface, 2-d kernel']
BOUNDS = { 'quick' : '1-d: 4 leaves; 2-d: 3 leaves', 'thorough' : '1-d: 5 leaves; 2-d: 4 leaves' }
BUDGET = { 'quick' : 60, 'thorough' : 300 }
X = numpy.array( [-1.3,-0.4,0.0,0.35,1.1] )
X2 = numpy.array( [[-1.0,0.3],[-0.2,-0.7],[0.4,0.9],[1.1,0.1]] )

def cases( tier ) :
    out = []
    top = 4 if tier == 'quick' else 5
    for n in range( 1, top + 1 ) :
        for i, s in enumerate( E.shapes( n ) ) :
            for ops in itertools.product( E.OPS, repeat=n - 1 ) :
                if n == 5 :
                    out += [{ 'key' : 'n%d.%d.%s' % ( n, i, ''.join( ops ) ), 'n' : n, 's' : i, 'ops' : ''.join( ops ), 'd' : 1 }]
                else :
                    out += [{ 'key' : 'n%d.%d.%s' % ( n, i, ''.join( ops ) ), 'n' : n, 's' : i, 'ops' : ''.join( ops ), 'd' : 1 }]
    for n in range( 1, ( 3 if tier == 'quick' else 4 ) + 1 ) :
        tt = E.trees2( n )
        for k in range( 0, len( tt ), 50 ) :
            out += [{ 'key' : '2d.n%d.%d' % ( n, k ), 'n' : n, 'lo' : k, 'd' : 2 }]
    return out

def leafsets( n ) :
    L = 'PGEFLMCDH'
    if n <= 2 :
        return list( itertools.product( L, repeat=n ) )
    if n == 3 :
        return list( itertools.product( 'PGE', repeat=3 ) ) + [( 'F','M','L' ),( 'M','F','C' ),( 'C','P','M' ),( 'D','G','H' ),( 'P','H','D' )]
    if n == 4 :
        return [tuple( 'PGEP' ),tuple( 'GEPF' ),tuple( 'EPMG' ),tuple( 'LCGP' ),tuple( 'HGDE' )]
    return [tuple( 'PGEPF' ),tuple( 'GEPLM' )]

def hows( n ) :
    if n == 1 : return [['bin']]
    if n <= 3 : return list( itertools.product( ['bin','inp','mth'], repeat=n - 1 ) )
    return [['bin'] * ( n - 1 ), ['inp'] * ( n - 1 ), ( ['bin','inp'] * n )[:n-1], ( ['inp','bin'] * n )[:n-1]]

def check( t, ctx, table, x, hw, sub ) :
    pars = E.leafpars( t, table )
    exp = E.ref( t, x, pars, table )
    exp = exp + 0 * x.reshape( len( x ), -1 )[:,0]
    m = E.build( t, table=table, bits=hw )
    lab = '%s %s' % ( E.tstr( t ), '/'.join( hw ) )
    p = E.flat( pars )
    ctx.trans()
    ctx.near( 'result', m.result( x, p.copy() ), exp, 1e-9, 1e-11, lab )
    ctx.near( 'call', m( x ), exp, 1e-9, 1e-11, lab )
    ctx.eq( 'npars', m.npars, len( p ), lab )
    ctx.near( 'parameters', m.parameters, p, 1e-14, 0, lab )
    if sub :
        # other parameters than the stored ones: only those handed over count
        q = split2( pars )
        ctx.near( 'result2', m.result( x, E.flat( q ) ), E.ref( t, x, q, table ) + 0 * x.reshape( len( x ), -1 )[:,0], 1e-9, 1e-11, lab )
        ctx.near( 'parameters-kept', m.parameters, p, 1e-14, 0, lab )
        # point by point evaluation agrees
        for k in ( 0, len( x ) - 1 ) :
            ctx.near( 'single', m.result( x[k:k+1], p.copy() ), exp[k:k+1], 1e-9, 1e-11, lab )
        c = m.copy()
        ctx.near( 'copy-result', c( x ), exp, 1e-9, 1e-11, lab )
        assert isinstance( str( m ), str )
    ctx.outcome( numpy.round( exp, 8 ) )
    return m

def split2( pars ) :
    return [[v * 0.93 + 0.02 for v in p] for p in pars]

def operands( t, ctx, table, x ) :
    """ binary operator leaves both operands as they were, also if the result is changed afterwards """
    if isinstance( t, str ) : return
    l = E.build( t[1], table=table, bits=['inp'] * 9 )
    r = E.build( t[2], table=table, bits=['inp'] * 9 )
    lp, rp = l.parameters.copy(), r.parameters.copy()
    ll, rl = l.chainLength(), r.chainLength()
    xr = x if x.ndim == 1 or r.ndim == 2 else x[:,0]
    lv, rv = l( x ), r( xr )
    c = E.BIN[t[0]]( l, r )
    c.parameters = c.parameters * 1.1 + 0.1
    c( x )
    for nm, m, p, v, n, xx in ( ( 'left', l, lp, lv, ll, x ), ( 'right', r, rp, rv, rl, xr ) ) :
        ctx.near( nm + '-operand-parameters', m.parameters, p, 1e-14, 0, E.tstr( t ) )
        ctx.near( nm + '-operand-value', m( xx ), v, 1e-12, 0, E.tstr( t ) )
        ctx.eq( nm + '-operand-chain', m.chainLength(), n, E.tstr( t ) )
    # one operand used twice
    if t[0] != '|' :
        tw = E.BIN[t[0]]( l, l )
        ctx.near( 'operand-twice', tw( x ), E.BIN[t[0]]( lv, lv ), 1e-9, 1e-11, E.tstr( t ) )
        # copy of compound is independent of it
        cc = c.copy()
        cv = cc( x )
        c.addModel( E.LEAVES['P'][0]() if x.ndim == 1 else E.LEAVES2['S'][0]() )
        c.parameters = c.parameters + 0.3
        ctx.near( 'copy-independent', cc( x ), cv, 1e-12, 0, E.tstr( t ) )

def run_case( case, ctx ) :
    n = case['n']
    if case['d'] == 1 :
        s = E.shapes( n )[case['s']]
        first = True
        for ls in leafsets( n ) :
            t = E.tree( s, case['ops'], ls )
            for hw in hows( n ) :
                check( t, ctx, E.LEAVES, X, list( hw ), first or n <= 2 )
                first = False
            if n <= 3 or ls[0] == 'P' :
                operands( t, ctx, E.LEAVES, X )
    else :
        for t in E.trees2( n )[case['lo']:case['lo']+50] :
            for hw in ( ['bin'] * n, ['inp'] * n ) :
                check( t, ctx, E.LEAVES2, X2, hw, True )
            operands( t, ctx, E.LEAVES2, X2 )
