""" C05 a model computes its documented formula; fixing parameters is substitution """
import itertools, numpy
import models as M
import BayesicFitting as B
import props.C03 as C03

LEVEL = 'exploration'
RULE = ( 'every catalogue model at every parameter set; with every subset of parameters fixed, by positive or negative index; every parameter '
         'replaced by 3 other models; inputs as array, list and single point and in every rotation; compared with the documented '
         'formula written independently' )
ASSUME = ['catalogue parameters, inputs away from poles']
BOUNDS = { 'quick' : 'compound nesting of fixed models: 1', 'thorough' : 'compound nesting of fixed models: 2' }
BUDGET = { 'quick' : 60, 'thorough' : 300 }

SUBS = [ ( 'poly', lambda : B.PolynomialModel( 1 ), lambda x, p : p[0] + p[1] * x, 2 ),
         ( 'exp', lambda : B.ExpModel(), lambda x, p : p[0] * numpy.exp( p[1] * x ), 2 ),
         ( 'cmp', lambda : B.PolynomialModel( 0 ) + B.SineModel( fixed={0:0.3} ), lambda x, p : p[0] + p[1] * numpy.cos( 2 * numpy.pi * 0.3 * x ) + p[2] * numpy.sin( 2 * numpy.pi * 0.3 * x ), 3 ) ]

def cases( tier ) :
    return [{ 'key' : 'mdl.' + m.name, 'm' : m.name, 'deep' : tier == 'thorough' } for m in M.CAT + M.EXT]

def run_case( case, ctx ) :
    mm = M.BYNAME[case['m']]
    x = mm.x
    for p in mm.pars :
        m = mm.make()
        if not ctx.eq( 'npars', m.npars, len( p ), mm.name ) : continue
        full = m.result( x, p.copy() )
        ref = mm.ref( x, p ) if mm.ref is not None else None
        if ref is not None :
            ctx.near( 'formula', full, ref, 1e-9, 1e-12, mm.name )
        ctx.outcome( numpy.round( full, 8 ) )
        ctx.trans()
        # attribute parameters are the default; model( x ) is result( x )
        if m.npars > 0 :
            m.parameters = p.copy()
            ctx.near( 'default parameters', m.result( x ), full, 1e-12, 0, mm.name )
            ctx.near( 'call', m( x ), full, 1e-12, 0, mm.name )
        # list input, single points, rotations
        ctx.near( 'list input', mm.make().result( x.tolist(), p.copy() ), full, 1e-12, 1e-14, mm.name )
        for r in range( 1, len( x ) ) :
            xr = numpy.concatenate( ( x[r:], x[:r] ) )
            ctx.near( 'rotated input', mm.make().result( xr, p.copy() ), numpy.concatenate( ( full[r:], full[:r] ) ), 1e-6, 1e-9, mm.name )
        for k in range( len( x ) ) :
            ctx.near( 'single point', m.result( x[k:k+1], p.copy() ), full[k:k+1], 1e-6, 1e-9, mm.name )
        M.intcheck( ctx, mm, p, 'result' )
        # input is left alone
        xx = x.copy()
        mm.make().result( xx, p.copy() )
        mm.make().partial( xx, p.copy() )
        ctx.true( 'input changed', numpy.array_equal( xx, x ), mm.name )
        if not mm.fix : continue
        for c in C03.subsets( len( p ) ) :
            fm = mm.make( fixed={ k : p[k] for k in c } )
            gm = mm.make( fixed={ k - len( p ) : p[k] for k in c } )
            free = [k for k in range( len( p ) ) if k not in c]
            if not ctx.eq( 'fixed-npars', fm.npars, len( free ), '%s fixed %s' % ( mm.name, c ) ) : continue
            ctx.near( 'fixed', fm.result( x, p[free] ), full, 1e-12, 1e-14, '%s fixed %s' % ( mm.name, c ) )
            ctx.near( 'fixed-negative', gm.result( x, p[free] ), full, 1e-12, 1e-14, '%s fixed %s' % ( mm.name, c ) )
            ctx.trans( 2 )
            # parameter names stay with their parameters
            nm = [m.getParameterName( k ) for k in free]
            if not any( n[-1].isdigit() for n in nm ) : ctx.eq( 'fixed-names', [fm.getParameterName( k ) for k in range( fm.npars )], nm, '%s fixed %s' % ( mm.name, c ) )
            # in a compound
            q = numpy.append( p[free], [0.4] )
            if mm.ndout == 1 :
                cm = fm * ( B.PolynomialModel( 0 ) if mm.ndim == 1 else B.PolySurfaceModel( 0 ) )
                ctx.near( 'fixed-compound', cm.result( x, q ), full * 0.4, 1e-12, 1e-14, '%s fixed %s' % ( mm.name, c ) )
        if mm.ndim > 1 or mm.ndout > 1 or mm.ref is None or mm.name == 'RadialVelocity' : continue
        for k in range( len( p ) ) :
            for nm, sub, sref, ns in SUBS :
                fm = mm.make( fixed={ k : sub() } )
                if not ctx.eq( 'model-fixed-npars', fm.npars, len( p ) - 1 + ns, mm.name ) : continue
                sp = numpy.array( [p[k],0.013,0.021][:ns] )
                rest = [p[i] for i in range( len( p ) ) if i != k]
                refp = [None] * len( p )
                for i in range( len( p ) ) : refp[i] = p[i]
                refp[k] = sref( x, sp )
                lab = '%s p%d is %s' % ( mm.name, k, nm )
                with numpy.errstate( all='ignore' ) :
                    try :
                        rr = mm.ref( x, refp )
                    except Exception :
                        rr = numpy.array( [mm.ref( x[j:j+1], numpy.array( [q[j] if i == k else q for i, q in enumerate( refp )] ) )[0] for j in range( len( x ) )] )
                    ctx.near( 'model-fixed', fm.result( x, numpy.append( rest, sp ) ), rr, 1e-9, 1e-11, lab )
                ctx.trans()
                if len( p ) < 2 : continue
                # one parameter constant and one a model
                for j in range( len( p ) ) :
                    if j == k : continue
                    for order in ( 0, 1 ) :
                        fx = { j : p[j], k : sub() } if order else { k : sub(), j : p[j] }
                        gm = mm.make( fixed=fx )
                        rest2 = [p[i] for i in range( len( p ) ) if i not in ( j, k )]
                        with numpy.errstate( all='ignore' ) :
                            ctx.near( 'model-and-constant-fixed', gm.result( x, numpy.append( rest2, sp ) ), rr, 1e-9, 1e-11, lab + ' p%d constant' % j )
                    # two parameters are models, in either order
                    rest2 = [p[i] for i in range( len( p ) ) if i not in ( j, k )]
                    for order in ( 0, 1 ) :
                        fx = { k : sub(), j : B.PolynomialModel( 0 ) } if order else { j : B.PolynomialModel( 0 ), k : sub() }
                        gm = mm.make( fixed=fx )
                        with numpy.errstate( all='ignore' ) :
                            ctx.near( 'two-models-fixed', gm.result( x, numpy.concatenate( ( rest2, sp, [p[j]] ) if order else ( rest2, [p[j]], sp ) ) ), rr, 1e-9, 1e-11, lab + ' p%d poly0 %d' % ( j, order ) )
                if case['deep'] :
                    inner = B.PolynomialModel( 1, fixed={ 0 : sub() } )
                    gm = mm.make( fixed={ k : inner } )
                    q = numpy.concatenate( ( rest, [0.017], sp ) )
                    refp[k] = sref( x, sp ) + 0.017 * x
                    with numpy.errstate( all='ignore' ) :
                        try :
                            rr2 = mm.ref( x, refp )
                        except Exception : continue
                        ctx.near( 'nested-model-fixed', gm.result( x, q ), rr2, 1e-9, 1e-11, lab )
