""" C02 bookkeeping of parameters, names, priors and limits in compound models """
import itertools, numpy
import expr as E
import BayesicFitting as B

LEVEL = 'exploration'
RULE = ( 'all expression trees up to N leaves, binary or in-place, leaves with individual priors set before or after composing; '
         'every parameter index is compared with the list obtained by concatenating the leaves; also all pairs (and more) of parts that store parameters, '
         'names and priors in their own way: repeating, combining, bracketed, dynamic models and models with parameters fixed to (several) models' )
ASSUME = ['priors from Uniform, Exponential, Gauss, Jeffreys, Cauchy; values fixed']
BOUNDS = { 'quick' : '3 leaves', 'thorough' : '4 leaves' }
BUDGET = { 'quick' : 60, 'thorough' : 300 }
X = numpy.array( [-1.3,-0.4,0.0,0.35,1.1] )

def mkprior( i ) :
    return [ lambda : B.UniformPrior( limits=[-1.5,2.5] ), lambda : B.ExponentialPrior( scale=3.0 ),
             lambda : B.GaussPrior( center=0.4, scale=1.7 ), lambda : B.JeffreysPrior( limits=[0.2,30.0] ),
             lambda : B.CauchyPrior( center=-0.2, scale=0.6 ), lambda : B.LaplacePrior( center=0.2, scale=0.9 ),
             lambda : B.UniformPrior( limits=[0.5,4.5] )][i % 7]()

NAMES = { 'P' : ['polycoeff_0','polycoeff_1'], 'G' : ['amplitude','center','width'], 'E' : ['amplitude','slope'],
          'F' : ['amplitude','width'], 'C' : [] }

def cases( tier ) :
    out = []
    top = 3 if tier == 'quick' else 4
    for n in range( 1, top + 1 ) :
        for i, s in enumerate( E.shapes( n ) ) :
            for ops in itertools.product( '+*|', repeat=n - 1 ) :
                for when in ( 'before','after','limits','lists' ) :
                    out += [{ 'key' : 'n%d.%d.%s.%s' % ( n, i, ''.join( ops ), when ), 'n' : n, 's' : i, 'ops' : ''.join( ops ), 'when' : when }]
    for n in range( 1, top + 1 ) :
        for seq in itertools.product( PARTS, repeat=min( n, 2 ) ) :
            for when in ( 'inner','before','after' ) :
                out += [{ 'key' : 'part%d.%s.%s' % ( n, '-'.join( seq ), when ), 'seq' : seq, 'len' : n, 'when' : when }]
    out += [{ 'key' : 'initial', 'seq' : None }]
    return out

# parts with their own way of storing parameters, names and priors :
# make( inner ), names, slot of each parameter ( parameters in one slot have one prior ), first parameter of each slot, slots of inner model
def gs( **k ) : return B.GaussModel( **k )
def pr( m, base, idx ) :
    """ m with prior base + i at idx[i] """
    if base is not None :
        for i, k in enumerate( idx ) : m.setPrior( k, prior=mkprior( base + i ) )
    return m
G3 = ['amplitude','center','width']
def sfx( names, n, but=() ) : return [nm + ( '' if k in but and i == 0 else '_%d' % i ) for i in range( n ) for k, nm in enumerate( names ) if i == 0 or k not in but]
def crep( names, n, but ) : return sfx( names, n, but )
PARTS = {
  'P' : ( lambda b : pr( B.PolynomialModel( 1 ), b, [0,1] ), ['polycoeff_0','polycoeff_1'], [0,1] ),
  'C' : ( lambda b : B.ConstantModel( values=[1.7] ), [], [] ),
  'R' : ( lambda b : B.RepeatingModel( 2, pr( gs(), b, [0,1,2] ), dynamic=False ), sfx( G3, 2 ), [0,1,2,0,1,2] ),
  'RD' : ( lambda b : B.RepeatingModel( 3, pr( gs(), b, [0,1,2] ) ), sfx( G3, 3 ), [0,1,2] * 3 ),
  'RS' : ( lambda b : B.RepeatingModel( 2, pr( gs(), b, [0,1,2] ), same=2, dynamic=False ), sfx( G3, 2, ( 2, ) ), [0,1,2,0,1] ),
  'RM' : ( lambda b : B.RepeatingModel( 3, pr( gs(), b, [0,1,2] ), same=[0,1], dynamic=False ), ['amplitude','center','width_0','width_1','width_2'], [0,1,2,2,2] ),
  'RC' : ( lambda b : B.RepeatingModel( 2, pr( B.ExpModel() + B.PolynomialModel( 1 ), b, [0,1,2,3] ), dynamic=False ), sfx( ['amplitude','slope','polycoeff_0','polycoeff_1'], 2 ), [0,1,2,3,0,1,2,3] ),
  'K1' : ( lambda b : B.CombiModel( pr( gs(), b, [0,1,2] ), 2, addCombi={1:[0,0.9]} ), ['amplitude_0','center','width_0','amplitude_1','width_1'], [0,1,2,0,2] ),
  'K0' : ( lambda b : B.CombiModel( pr( gs(), b, [0,1,2] ), 2, mulCombi={0:[1,2]} ), ['amplitude','center_0','width_0','center_1','width_1'], [0,1,2,1,2] ),
  'K2' : ( lambda b : B.CombiModel( pr( gs(), b, [0,1,2] ), 3, mulCombi={2:[1,2,3]}, addCombi={1:[0,0.3,0.7]} ), ['amplitude_0','center','width','amplitude_1','amplitude_2'], [0,1,2,0,0] ),
  'KN' : ( lambda b : B.CombiModel( pr( gs(), b, [0,1,2] ), 2 ), sfx( G3, 2 ), [0,1,2,0,1,2] ),
  'M1' : ( lambda b : pr( gs( fixed={ 2:B.PolynomialModel( 1 ), 0:B.ExpModel() } ), b, range( 5 ) ), ['center','polycoeff_0','polycoeff_1','amplitude','slope'], [0,1,2,3,4] ),
  'M2' : ( lambda b : pr( gs( fixed={ 0:B.ExpModel() + B.GaussModel( fixed={ 1:0.1 } ), 2:0.7 } ), b, range( 5 ) ), ['center','amplitude','slope','amplitude','width'], [0,1,2,3,4] ),
  'M3' : ( lambda b : pr( gs( fixed={ 1:B.CombiModel( gs(), 2, addCombi={0:[0,1],1:[0,0.9]} ), 0:B.RepeatingModel( 2, B.PolynomialModel( 0 ), dynamic=False ) } ), b, range( 7 ) ),
            ['width','amplitude','center','width_0','width_1','polycoeff_0_0','polycoeff_0_1'], [0,1,2,3,4,5,6] ),
  'F' : ( lambda b : pr( B.VoigtModel( fixed={ -1:0.5, 1:0.2, 0:1.0 } ), b, [0] ), None, [0] ),
  'B' : ( lambda b : B.BracketModel( pr( B.ExpModel() + B.PolynomialModel( 1 ), b, range( 4 ) ) ), ['amplitude','slope','polycoeff_0','polycoeff_1'], [0,1,2,3] ),
  'H' : ( lambda b : pr( B.HarmonicDynamicModel( 2 ), b, [0,1] ), ['cosamp_0','sinamp_0','cosamp_1','sinamp_1'], [0,1,0,1] ),
}
NODYN = ( 'RD','H' )

def part( case, ctx ) :
    if case['seq'] is None : return initial( ctx )
    seq, when = case['seq'], case['when']
    if case['len'] > 2 : seq = list( seq ) + ['P','K1','R','M1'][:case['len']-2]
    if sum( s in NODYN for s in seq ) > 1 : return
    for how in ( 'bin','inp','nest' ) :
        if how == 'nest' and len( seq ) < 2 : continue
        lab = '%s %s %s' % ( '+'.join( seq ), how, when )
        ms = []
        names = []
        pri = []
        first = []                  # parameters to be set
        every = []                  # parameters that can be set
        base = 0
        for s in seq :
            mk, nms, slots = PARTS[s]
            m = mk( base if when == 'inner' else None )
            sl = slots
            if when != 'inner' and s[0] == 'K' : sl = list( range( len( slots ) ) )       # every copy its own prior
            q = [sl.index( k ) for k in sorted( set( sl ) )]
            if when == 'before' : pr( m, base, q )
            ms += [m]
            first += [len( pri ) + k for k in q]
            every += [len( pri ) + k for k in ( range( len( slots ) ) if s[0] == 'K' else q )]
            pri += [mkprior( base + k ) for k in sl]
            names += nms if nms is not None else [m.getParameterName( 0 )]
            base += len( set( sl ) )
        if how == 'bin' :
            m = ms[0]
            for q in ms[1:] : m = m + q
        elif how == 'inp' :
            m = ms[0]
            for q in ms[1:] : m += q
        else :
            if ms[-2].isDynamic() or ms[-1].isDynamic() : continue
            m = ms[-2] * ms[-1]
            for q in ms[-3::-1] : m = q - m
            if len( ms ) == 2 :
                m = B.PolynomialModel( 0 ) + m
                m.setPrior( 0, prior=mkprior( 6 ) )
                names, pri, first, every = ['polycoeff_0'] + names, [mkprior( 6 )] + pri, [0] + [k + 1 for k in first], [0] + [k + 1 for k in every]
        npar = len( names )
        ctx.trans()
        ctx.outcome( [lab, npar] )
        ctx.eq( 'part-npars', m.npars, npar, lab )
        ctx.eq( 'part-names', [m.getParameterName( k ) for k in range( npar )], names, lab )
        if npar == 0 : continue
        if when == 'after' :
            for k in first : m.setPrior( k, prior=pri[k].copy() )
        ctx.true( 'part-hasPriors', m.hasPriors( isBound=False ), lab )
        ctx.eq( 'part-hasBoundPriors', m.hasPriors(), all( p.isBound() for p in pri ), lab )
        for mm, nm in ( ( m, 'part-' ), ( m.copy(), 'part-copy-' ) ) :
            for k in range( npar ) :
                ctx.true( nm + 'prior', samePrior( mm.getPrior( k ), pri[k] ), '%s k=%d %s vs %s' % ( lab, k, mm.getPrior( k ), pri[k] ) )
            u = numpy.linspace( 0.2, 0.91, npar )
            ed = numpy.array( [pri[k].unit2Domain( u[k] ) for k in range( npar )] )
            ctx.near( nm + 'unit2Domain', mm.unit2Domain( u ), ed, 1e-9, 1e-12, lab )
            ctx.near( nm + 'domain2Unit', mm.domain2Unit( ed ), u, 1e-8, 1e-10, lab )
            lo, hi = mm.getLimits()
            ctx.true( nm + 'limits', list( lo ) == [p.lowLimit for p in pri] and list( hi ) == [p.highLimit for p in pri], lab )
            has = [p.hasLimits() for p in pri]
            ctx.eq( nm + 'hasLimits', bool( mm.hasLimits() ), all( has ), lab )
            for r in ( 0, 1, 2 ) :
                for fi in itertools.combinations( range( npar ), r ) :
                    ctx.eq( nm + 'hasLimits-of', bool( mm.hasLimits( fitindex=numpy.array( fi, dtype=int ) ) ), all( has[k] for k in fi ), '%s %s' % ( lab, fi ) )
            ctx.eq( nm + 'hasLimits-of', bool( mm.hasLimits( fitindex=list( range( npar ) ) ) ), all( has ), lab )
        # all with limits
        for k in every : m.setPrior( k, prior=B.UniformPrior( limits=[1.0 + k,2.0 + k] ) )
        ctx.true( 'part-hasLimits', m.hasLimits(), lab )
        for k in every :
            p = m.getPrior( k )
            ctx.true( 'part-setPrior', p.lowLimit == 1.0 + k and p.highLimit == 2.0 + k, '%s k=%d %s' % ( lab, k, p ) )
        # one without bounds
        for k in every :
            m.setPrior( k, prior=B.UniformPrior() )
            ctx.true( 'part-one-unbound', not m.hasPriors() and not m.hasPriors( isBound=True ) and m.hasPriors( isBound=False ), '%s k=%d' % ( lab, k ) )
            m.setPrior( k, prior=B.UniformPrior( limits=[1.0 + k,2.0 + k] ) )
        ctx.true( 'part-all-bound', m.hasPriors() and m.hasPriors( isBound=False ), lab )

def own( m, p ) :
    m.parameters = numpy.array( p )
    return m
def initial( ctx ) :
    """ parameters of models that replace a parameter are the initial ones, in the order of the names """
    subs = [( lambda : own( B.PolynomialModel( 1 ), [0.9,0.2] ), [0.9,0.2], lambda x : 0.9 + 0.2 * x ),
            ( lambda : own( B.ExpModel(), [1.3,-0.25] ), [1.3,-0.25], lambda x : 1.3 * numpy.exp( -0.25 * x ) ),
            ( lambda : own( B.PolynomialModel( 0 ) + B.ExpModel(), [0.6,0.4,0.3] ), [0.6,0.4,0.3], lambda x : 0.6 + 0.4 * numpy.exp( 0.3 * x ) ),
            ( lambda : own( B.PolynomialModel( 1, fixed={1:B.ExpModel()} ), [0.8,0.15,0.35] ), [0.8,0.15,0.35], lambda x : 0.8 + x * 0.15 * numpy.exp( 0.35 * x ) ),
            ( lambda : 1.1, [], lambda x : 1.1 + 0 * x )]
    gauss = lambda x, a, c, w : a * numpy.exp( -0.5 * ( ( x - c ) / w ) ** 2 )
    default = list( B.GaussModel().parameters )
    for r in ( 1, 2, 3 ) :
        for ks in itertools.permutations( range( 3 ), r ) :
            for ss in itertools.product( range( len( subs ) ), repeat=r ) :
                lab = 'gauss fixed %s' % ( list( zip( ks, ss ) ), )
                m = B.GaussModel( fixed={ k : subs[s][0]() for k, s in zip( ks, ss ) } )
                exp = [default[k] for k in range( 3 ) if k not in ks]
                val = [default[k] + 0 * X for k in range( 3 )]
                for k, s in zip( ks, ss ) :
                    exp += subs[s][1]
                    val[k] = subs[s][2]( X )
                ctx.near( 'initial-parameters', m.parameters, exp, 1e-14, 0, lab )
                ctx.eq( 'initial-npars', m.npars, len( exp ), lab )
                for q, nm in ( ( m, '' ), ( m.copy(), 'copy ' ), ( B.PolynomialModel( 0 ) + m, 'chain ' ) ) :
                    ctx.near( 'initial-value', q( X ), gauss( X, *val ), 1e-10, 1e-12, nm + lab )
                ctx.trans()
    ctx.outcome( 'initial' )

def leafsets( n ) :
    if n == 1 : return [( c, ) for c in 'PGEFC']
    if n == 2 : return list( itertools.product( 'PGF', repeat=2 ) ) + [( 'C','G' ),( 'G','C' )]
    if n == 3 : return [tuple( 'PGE' ),tuple( 'GEP' ),tuple( 'EPG' ),tuple( 'FPG' ),tuple( 'GCP' )]
    return [tuple( 'PGEF' ),tuple( 'GEPP' )]

def table( when ) :
    cnt = [0]
    tb = {}
    def mk( l ) :
        def f() :
            m = E.LEAVES[l][0]()
            if when == 'before' :
                for k in range( len( E.LEAVES[l][2] ) ) :
                    m.setPrior( k, prior=mkprior( cnt[0] ) )
                    cnt[0] += 1
            else :
                cnt[0] += len( E.LEAVES[l][2] )
            return m
        return f
    for l in E.LEAVES :
        tb[l] = ( mk( l ), E.LEAVES[l][1], E.LEAVES[l][2] )
    return tb

def samePrior( a, b ) :
    if type( a ) != type( b ) : return False
    u = numpy.array( [0.05,0.3,0.5,0.77,0.96] )
    return numpy.allclose( a.unit2Domain( u ), b.unit2Domain( u ), rtol=1e-10, atol=1e-12 )

def run_case( case, ctx ) :
    if 'seq' in case : return part( case, ctx )
    n = case['n']
    s = E.shapes( n )[case['s']]
    when = case['when']
    for ls in leafsets( n ) :
        t = E.tree( s, case['ops'], ls )
        for how in ( 'bin','inp' ) :
            one( t, ls, how, when, ctx )

def one( t, ls, how, when, ctx ) :
    lab = '%s %s' % ( E.tstr( t ), how )
    tb = table( when )
    m = E.build( t, how=how, table=tb )
    names = [nm for l in ls for nm in NAMES[l]]
    npar = len( names )
    ctx.trans()
    ctx.eq( 'npars', m.npars, npar, lab )
    ctx.eq( 'npchain', m.npchain, npar, lab )
    ctx.eq( 'getNumberOfParameters', m.getNumberOfParameters(), npar, lab )
    ctx.eq( 'names', [m.getParameterName( k ) for k in range( npar )], names, lab )
    for k in range( npar ) :
        m.getParameterUnit( k )
    for k in ( npar, npar + 2 ) :
        for f in ( m.getParameterName, ) :
            try :
                f( k )
                ctx.bad( 'index-beyond', lab )
            except IndexError :
                ctx.ev()
    ctx.outcome( [lab, when] )
    if npar == 0 : return
    pri = [mkprior( k ) for k in range( npar )]
    if when == 'after' :
        ctx.true( 'hasPriors-none', not m.hasPriors(), lab )
        lastl = [l for l in ls if len( NAMES[l] ) > 0][-1]
        for k in range( npar ) :
            # all parameters of a leaf take the last prior given; a leaf without any prior has none
            if k == npar - len( NAMES[lastl] ) :
                ctx.true( 'hasPriors-part', not m.hasPriors(), lab )
            m.setPrior( k, prior=mkprior( k ) )
    elif when == 'limits' :
        lo = [-1.0 - 0.1 * k for k in range( npar )]
        hi = [2.0 + 0.3 * k for k in range( npar )]
        m.setLimits( lo, hi )
        pri = [B.UniformPrior( limits=[a,b] ) for a, b in zip( lo, hi )]
        l, h = m.getLimits()
        ctx.near( 'getLimits-low', l, lo, 1e-12, 0, lab )
        ctx.near( 'getLimits-high', h, hi, 1e-12, 0, lab )
        ctx.true( 'hasLimits', m.hasLimits(), lab )
    elif when == 'lists' :
        # limits on one side only, on a first few parameters, and changing them again
        lo = [-1.0 - 0.1 * k for k in range( npar )]
        m.setLimits( lowLimits=lo )
        l, h = m.getLimits()
        ctx.near( 'lowLimits-only', l, lo, 1e-12, 0, lab )
        ctx.true( 'lowLimits-only-high', not any( numpy.isfinite( h ) ), lab )
        hi = [3.0 + k for k in range( npar )]
        m.setLimits( highLimits=hi )
        l, h = m.getLimits()
        ctx.near( 'highLimits-only', h, hi, 1e-12, 0, lab )
        m.setLimits( lo, hi )
        m.setLimits( [-7.0], [7.0] )
        lo[0], hi[0] = -7.0, 7.0
        pri = [B.UniformPrior( limits=[a,b] ) for a, b in zip( lo, hi )]
        l, h = m.getLimits()
        ctx.near( 'getLimits-low', l, lo, 1e-12, 0, lab )
        ctx.near( 'getLimits-high', h, hi, 1e-12, 0, lab )
        ctx.true( 'hasLimits', m.hasLimits(), lab )
        # every pair of list lengths: what is not given is unbound on that side
        lens = [-1] + list( range( npar + 1 ) )
        if npar > 4 : lens = sorted( { -1, 0, 1, 2, npar - 1, npar } )
        for nl in lens :
            for nh in lens :
                mq = E.build( t, how=how, table=tb )
                el = [-1.0 - 0.1 * k if k < nl else -numpy.inf for k in range( npar )]
                eh = [2.0 + 0.3 * k if k < nh else numpy.inf for k in range( npar )]
                mq.setLimits( None if nl < 0 else el[:nl], None if nh < 0 else eh[:nh] )
                ll = '%s low %d high %d' % ( lab, nl, nh )
                if max( nl, nh ) <= 0 : continue
                n0 = max( nl, nh )
                l, h = zip( *[( mq.getPrior( k ).lowLimit, mq.getPrior( k ).highLimit ) for k in range( n0 )] )
                if n0 == npar : l, h = mq.getLimits()
                ctx.near( 'limits-lists-low', l[:n0], el[:n0], 1e-12, 0, ll )
                ctx.near( 'limits-lists-high', h[:n0], eh[:n0], 1e-12, 0, ll )
                for k in range( n0 ) :
                    p = mq.getPrior( k )
                    ctx.true( 'limits-lists-prior', p.lowLimit == el[k] and p.highLimit == eh[k], ll )
    ctx.true( 'hasPriors', m.hasPriors(), lab )
    for mm, nm in ( ( m, '' ), ( m.copy(), 'copy-' ) ) :
        for k in range( npar ) :
            ctx.true( nm + 'getPrior', samePrior( mm.getPrior( k ), pri[k] ), '%s k=%d %s vs %s' % ( lab, k, mm.getPrior( k ), pri[k] ) )
        for uv in ( 0.2, 0.5, 0.9 ) :
            u = numpy.linspace( uv, 0.97 - 0.3 * uv, npar )
            ed = numpy.array( [pri[k].unit2Domain( u[k] ) for k in range( npar )] )
            d = mm.unit2Domain( u )
            ctx.near( nm + 'unit2Domain', d, ed, 1e-9, 1e-12, lab )
            ctx.near( nm + 'domain2Unit', mm.domain2Unit( ed ), u, 1e-8, 1e-10, lab )
            ctx.near( nm + 'partialDomain2Unit', mm.partialDomain2Unit( ed ),
                        [pri[k].partialDomain2Unit( ed[k] ) for k in range( npar )], 1e-8, 1e-12, lab )
            for k in range( npar ) :
                ctx.near( nm + 'unit2Domain-k', mm.unit2Domain( u[k], kpar=k ), ed[k], 1e-9, 1e-12, lab )
                ctx.near( nm + 'domain2Unit-k', mm.domain2Unit( ed[k], kpar=k ), u[k], 1e-8, 1e-10, lab )
    # changing one prior in the compound changes that one only
    for k in range( npar ) :
        m.setPrior( k, prior=B.UniformPrior( limits=[7.0,8.0] ) )
        for j in range( npar ) :
            p = m.getPrior( j )
            if j == k : ctx.true( 'setPrior', p.lowLimit == 7.0 and p.highLimit == 8.0, lab )
            else : ctx.true( 'setPrior-other', samePrior( p, pri[j] ), '%s set %d changed %d' % ( lab, k, j ) )
        m.setPrior( k, prior=pri[k].copy() )
    # parts
    if all( isinstance( r, str ) for r in rights( t ) ) :
        at = 0
        p = m.parameters.copy()
        for k, l in enumerate( ls ) :
            q = m.isolateModel( k )
            nl = len( NAMES[l] )
            ctx.near( 'isolate-parameters', q.parameters, p[at:at+nl], 1e-14, 0, lab )
            ctx.eq( 'isolate-npars', q.npars, nl, lab )
            ctx.near( 'isolate-value', q( X ), E.LEAVES[l][1]( X, p[at:at+nl] ) + 0 * X, 1e-10, 1e-12, lab )
            at += nl
        ctx.near( 'isolate-leaves-model', m.parameters, p, 1e-14, 0, lab )
        ctx.eq( 'isolate-leaves-chain', m.chainLength(), len( ls ), lab )
        ctx.near( 'isolate-leaves-value', m( X ), E.ref( t, X, E.leafpars( t ) ) + 0 * X, 1e-9, 1e-11, lab )

def rights( t ) :
    return [] if isinstance( t, str ) else rights( t[1] ) + [t[2]]
