""" C06 copies (and operands) are equal to and independent of their origin """
import itertools, numpy
import models as M
import expr as E
import BayesicFitting as B
import props.C03 as C03

LEVEL = 'model_checking'
RULE = ( 'every catalogue model and a set of compounds, with parameters, priors and limits set; all operation sequences to depth N on the '
         'pair ( original, copy ), operations aimed at either one; in each state the observable snapshot of both must equal that of two '
         'models that were built separately and received the same operations' )
ASSUME = ['observables: result, partial, parameters, names, priors (by mapping), limits, number of parameters, text']
BOUNDS = { 'quick' : 'depth 2', 'thorough' : 'depth 3' }
BUDGET = { 'quick' : 100, 'thorough' : 800 }

COMP = {
  'P+G' : lambda : B.PolynomialModel( 1 ) + B.GaussModel(),
  'G-P*E' : lambda : B.GaussModel() - B.PolynomialModel( 1 ) * B.ExpModel(),
  '(P+G)/E' : lambda : ( B.PolynomialModel( 1 ) + B.GaussModel() ) / B.ExpModel(),
  'P|G+E' : lambda : ( B.PolynomialModel( 1 ) | B.GaussModel() ) + B.ExpModel(),
  'P|(G+E)' : lambda : B.PolynomialModel( 1 ) | ( B.GaussModel() + B.ExpModel() ),
  'P+(G|(E*F))' : lambda : B.PolynomialModel( 1 ) + ( B.GaussModel() | ( B.ExpModel() * B.GaussModel( fixed={1:0.2} ) ) ),
  'Br(P+G)' : lambda : B.BracketModel( B.PolynomialModel( 1 ) + B.GaussModel() ),
  'Br(P+G)*E' : lambda : B.BracketModel( B.PolynomialModel( 1 ) + B.GaussModel() ) * B.ExpModel(),
  'Fx+P' : lambda : B.GaussModel( fixed={1:0.3} ) + B.PolynomialModel( 1 ),
  'FxM' : lambda : B.GaussModel( fixed={0:B.PolynomialModel( 1 )} ) + B.ExpModel(),
  'FxMM' : lambda : B.GaussModel( fixed={2:B.PolynomialModel( 0 ) + B.ExpModel(), 0:B.PolynomialModel( 1 )} ) + B.PolynomialModel( 0 ),
  'FxPipe' : lambda : B.LogisticModel( fixed={0:1.4,2:( B.ExpModel() | B.PolynomialModel( 1 ) )} ),
  'FxFx' : lambda : B.GaussModel( fixed={0:B.PolynomialModel( 1, fixed={1:B.ExpModel()} )} ),
  'FxCombi' : lambda : B.GaussModel( fixed={2:B.CombiModel( B.ExpModel(), 2, addCombi={1:[0,0.3]} )} ),
  'BrFx' : lambda : B.BracketModel( B.GaussModel( fixed={0:B.PolynomialModel( 1 )} ) + B.ExpModel() ),
  'Combi+P' : lambda : B.CombiModel( B.LorentzModel(), 2, addCombi={1:[0,0.4]} ) + B.PolynomialModel( 1 ),
  'CombiM' : lambda : B.CombiModel( B.GaussModel(), 3, addCombi={1:[0,0.4,0.9]}, mulCombi={2:[1,2,0.5]} ),
  'CombiO' : lambda : B.CombiModel( B.PolynomialModel( 1 ), 2, oper='mul' ),
  'Repeat+P' : lambda : B.RepeatingModel( 2, B.GaussModel(), dynamic=False ) + B.PolynomialModel( 1 ),
  'RepeatDyn' : lambda : B.RepeatingModel( 2, B.GaussModel(), minComp=1, maxComp=4 ),
  'RepeatSame+P' : lambda : B.RepeatingModel( 2, B.GaussModel(), same=2, dynamic=False ) + B.PolynomialModel( 1 ),
  'RepeatPG' : lambda : B.RepeatingModel( 2, B.GaussModel() + B.ExpModel(), dynamic=False ),
  'PolyDyn+G' : lambda : B.PolynomialDynamicModel( 1 ) + B.GaussModel(),
  'HarmDyn' : lambda : B.HarmonicDynamicModel( 2 ),
  'SplDyn' : lambda : B.SplinesDynamicModel( knots=[0.0,0.4,1.3], order=2 ),
  'Const*G' : lambda : B.ConstantModel( values=[1.3] ) * B.GaussModel(),
  'SM+SM' : lambda : C03.SM( 2, 2 ) + C03.SM( 2, 2, False ),
  'K2+PS' : lambda : B.Kernel2dModel() + B.PolySurfaceModel( 1 ),
  'SM|PS' : lambda : C03.SM( 2, 2 ) | B.PolySurfaceModel( 1 ),
  'DTree' : lambda : B.DecisionTreeModel( ndim=2, depth=2, kdim=[0,1,0] ),
}

def cases( tier ) :
    d = 2 if tier == 'quick' else 3
    return ( [{ 'key' : 'mdl.' + m.name, 'm' : m.name, 'd' : d } for m in M.CAT] +
             [{ 'key' : 'cmp.' + c, 'c' : c, 'd' : d } for c in COMP] )

VAL = [0.7,0.35,1.3,0.25,0.9,0.6,1.1,0.45]

def prep( mk, variant ) :
    m = mk()
    if m.npars > 0 :
        m.parameters = numpy.array( [VAL[k % 8] + 0.01 * k for k in range( m.npars )] )
        if variant == 1 :
            for k in range( m.npars ) :
                try : m.setPrior( k, prior=B.UniformPrior( limits=[-1.0 - 0.1 * k, 3.0 + 0.1 * k] ) if k % 2 == 0 else B.GaussPrior( center=0.1 * k, scale=1.5 ) )
                except IndexError :            # documented : a RepeatingModel has the priors of one repetition
                    if k == 0 : raise
                    break
    return m

US = numpy.array( [0.1,0.45,0.8] )
def snap( m, x ) :
    out = {}
    def put( k, f ) :
        try : out[k] = f()
        except Exception as e : out[k] = 'raises %s' % type( e ).__name__
    put( 'npars', lambda : ( m.npars, m.npchain, m.npbase, m.ndim, m.ndout, m.lastndout, m.chainLength() ) )
    put( 'parameters', lambda : numpy.array( m.parameters, dtype=float ).copy() )
    p = out['parameters']
    q = numpy.array( [VAL[k % 8] - 0.02 * k for k in range( out['npars'][0] )] )
    with numpy.errstate( all='ignore' ) :
        put( 'result', lambda : numpy.array( m.result( x, q.copy() ), dtype=float ) )
        put( 'default', lambda : numpy.array( m.result( x ), dtype=float ) )
        put( 'partial', lambda : numpy.array( m.partial( x, q.copy() ), dtype=float ) )
    put( 'names', lambda : [m.getParameterName( k ) for k in range( m.npars )] )
    put( 'units', lambda : [str( m.getParameterUnit( k ) ) for k in range( m.npars )] )
    def pri( k ) :
        try :
            pr = m.getPrior( k )
        except IndexError : return 'none'
        pr = pr
        if not pr.isBound() : return str( type( pr ) ) + str( pr.getLimits() )
        return str( type( pr ) ) + ' '.join( '%.8g' % float( pr.unit2Domain( u ) ) for u in US )
    put( 'priors', lambda : [pri( k ) for k in range( m.npars )] )
    put( 'hasPriors', lambda : ( bool( m.hasPriors() ), bool( m.hasLimits() ) ) )
    put( 'stdevs', lambda : 'none' if m.stdevs is None else numpy.array( m.stdevs, dtype=float ) )
    put( 'str', lambda : str( m ) )
    put( 'dyn', lambda : ( m.isDynamic(), m.isModifiable() ) )
    def dynatt() :
        if not m.isDynamic() : return None
        k = m
        while k is not None and not hasattr( k, 'ncomp' ) : k = k._next
        return ( k.ncomp, k.minComp, k.maxComp ) if k is not None else None
    put( 'dynatt', dynatt )
    return out

def same( a, b ) :
    if set( a ) != set( b ) : return 'keys'
    for k in a :
        if isinstance( a[k], numpy.ndarray ) or isinstance( b[k], numpy.ndarray ) :
            try :
                ok = a[k].shape == b[k].shape and numpy.allclose( a[k], b[k], rtol=1e-10, atol=1e-12, equal_nan=True )
            except Exception : ok = False
        else : ok = a[k] == b[k]
        if not ok : return '%s: %s versus %s' % ( k, str( a[k] )[:150], str( b[k] )[:150] )
    return None

def o_inplace( m ) : m.parameters[0] = 0.123
def o_last( m ) : m.parameters[-1] += 0.5
def o_assign( m ) : m.parameters = numpy.array( m.parameters ) * 0.5 + 0.1
def o_prior( m ) : m.setPrior( 0, prior=B.LaplacePrior( center=0.2, scale=0.7 ) )
def o_limits( m ) : m.setLimits( lowLimits=[-2.0] * m.npars, highLimits=[5.0] * m.npars )
def o_mutate( m ) : m.getPrior( 0 ).setLimits( [0.25,0.5] )
def o_mutlast( m ) : m.getPrior( m.npars - 1 ).setLimits( [0.25,0.5] )
def o_append( m ) : m += ( B.PolynomialModel( 0 ) if m.ndim == 1 else B.PolySurfaceModel( 0 ) )
def o_appendch( m ) : m *= ( ( B.PolynomialModel( 0 ) + B.ExpModel() ) if m.ndim == 1 else ( B.PolySurfaceModel( 0 ) + B.PolySurfaceModel( 1 ) ) )
def o_pipe( m ) : m |= ( B.GaussModel() if m.lastndout == 1 else C03.SM( m.lastndout, 2 ) )
def o_units( m ) :
    import astropy.units as u
    m.yUnit = u.Unit( 'Jy' )
    m.xUnit = u.Unit( 'm' ) if m.ndim == 1 else [u.Unit( 'm' ),u.Unit( 's' )]
def o_stdevs( m ) : m.stdevs = numpy.array( m.parameters ) * 0 + 0.1
def o_operand( m ) :
    n = m + m
    n.parameters[0] = 7.7
    n.setPrior( 0, prior=B.UniformPrior( limits=[0,9] ) )
def o_iso( m ) :
    n = m.isolateModel( 0 )
    n.parameters[0] = 8.8
    n.setPrior( 0, prior=B.UniformPrior( limits=[0,9] ) )
def o_bad( m ) : m.setLimits( lowLimits=[5.0], highLimits=[1.0] )
def o_grow( m ) :
    k, off = m, 0
    while not k.isDynamic.__func__( k ) if False else not hasattr( k, 'ncomp' ) :
        off += k.npbase
        k = k._next
    k.grow( offset=off, rng=numpy.random.RandomState( 3 ) )
def o_shrink( m ) :
    k, off = m, 0
    while not hasattr( k, 'ncomp' ) :
        off += k.npbase
        k = k._next
    k.shrink( offset=off, rng=numpy.random.RandomState( 3 ) )
OPS = [o_inplace,o_last,o_assign,o_prior,o_limits,o_mutate,o_mutlast,o_append,o_appendch,o_pipe,o_units,o_stdevs,o_operand,o_iso,o_bad]

def do( op, m ) :
    """ an operation that is refused with an exception must be refused everywhere """
    import io, contextlib
    try :
        with contextlib.redirect_stdout( io.StringIO() ) :
            op( m )
        return None
    except Exception as e :
        return type( e ).__name__

def run_case( case, ctx ) :
    if 'm' in case :
        mm = M.BYNAME[case['m']]
        mk, x = mm.make, mm.x
    else :
        mk = COMP[case['c']]
        x = C03.mixx( mk() )
    for variant in ( 0, 1 ) :
        try :
            base = prep( mk, variant )
        except Exception as e :
            ctx.bad( 'preparation', '%s: %r' % ( case['key'], e ) )
            continue
        ref = snap( base, x )
        if isinstance( ref['result'], str ) or isinstance( ref['partial'], str ) :
            ctx.bad( 'evaluation', '%s' % { k : ref[k] for k in ref if str( ref[k] ).startswith( 'raises' ) } )
        ctx.outcome( str( ref['names'] ) + str( ref['str'] ) )
        c = base.copy()
        d = same( snap( c, x ), ref )
        ctx.ev( 2 )
        if d : ctx.bad( 'copy differs', '%s variant %d: %s' % ( case['key'], variant, d ) )
        d = same( snap( base, x ), ref )
        if d : ctx.bad( 'original changed by copy', d )
        d = same( snap( c.copy(), x ), ref )
        if d : ctx.bad( 'copy of copy differs', d )
        if base.npars == 0 : continue
        ops = OPS + ( [o_grow,o_shrink] if base.isDynamic() else [] )
        acts = [( t, o ) for o in range( len( ops ) ) for t in ( 0, 1 )]
        # expected snapshots for op sequences on one model alone: depend only on the sequence
        cache = {}
        def expect( seq ) :
            if seq not in cache :
                m = prep( mk, variant )
                r = [do( ops[o], m ) for o in seq]
                cache[seq] = ( snap( m, x ), r[-1] if r else None )
            return cache[seq]
        for depth in range( 1, case['d'] + 1 ) :
            for seq in itertools.product( acts, repeat=depth ) :
                if depth > 1 and len( set( t for t, o in seq ) ) == 1 and depth > 2 : continue
                a = prep( mk, variant )
                pair = [a, a.copy()]
                for t, o in seq :
                    r = do( ops[o], pair[t] )
                ctx.trans()
                ctx.trace()
                for t in ( 0, 1 ) :
                    sub = tuple( o for tt, o in seq if tt == t )
                    e, er = expect( sub )
                    ctx.ev()
                    d = same( snap( pair[t], x ), e )
                    if d :
                        ctx.bad( 'pair ' + ( 'original' if t == 0 else 'copy' ), 'after %s: %s' % ( [( 'orig','copy' )[tt] + '.' + ops[o].__name__[2:] for tt, o in seq], d ) )
                ctx.outcome( str( seq ) + case['key'] ) if depth == 1 else None
