""" C14 linear fitters: every history of fits gives the weighted least squares solution of the last one """
import numpy, math, itertools
import BayesicFitting as B
from fit import *

LEVEL = 'model_checking'
RULE = ( 'all histories of fit / modelFit / limitsFit / normalize on one fitter object; after every operation the parameters, chisq and yfit equal the weighted least '
         'squares solution for the arguments of that operation, whatever was fitted before; inputs stay unchanged' )
ASSUME = ['9 data points, well conditioned linear models', 'data that do not fit exactly']
BOUNDS = { 'quick' : 'alphabet of 20-60 operations, histories of depth 2', 'thorough' : 'histories of depth 3' }
BUDGET = { 'quick' : 120, 'thorough' : 600 }

FIT = { 'Fitter' : B.Fitter, 'QRFitter' : B.QRFitter }

def cases( tier ) :
    dep = 2 if tier == 'quick' else 3
    out = []
    for f in FIT :
        for pr in PROB :
            np = PROB[pr][0]().npchain
            for ck in keeps( np ) :
                if ck == 'kz' : continue
                out += [{ 'key' : 'H.%s.%s.c%s' % ( f, pr, ck ), 't' : 'H', 'c' : [f, pr, ck], 'depth' : dep }]
            if np > 0 and pr != 'map' : out += [{ 'key' : 'L.%s.%s' % ( f, pr ), 't' : 'L', 'c' : [f, pr] }]
        out += [{ 'key' : 'F.%s' % f, 't' : 'F', 'c' : f }]
    return out

def alphabet( np, deep ) :
    ops = []
    ws = ( 'w0','wa' ) if deep else ( 'w0','wa','wi' )
    for iy in ( 0, 1 ) :
        for w in ws :
            for a in AS :
                for k in keeps( np ) :
                    if deep and iy == 1 and ( a == 'as' or k == 'k2' ) : continue
                    ops += [( 'fit', iy, w, a, k )]
    ops += [( 'mfit', 0, 'wa', 'a0', k ) for k in ( 'k0','kf' ) if k in keeps( np )]
    if np > 0 : ops += [( 'norm', 0 ), ( 'norm', 1 )]
    ops += [( 'setpar', )]
    return ops

def setup( f, pr, ck ) :
    mk, x, mx, mp = PROB[pr]
    m = mk()
    kp = keeps( m.npchain )[ck]
    kw = { 'map' : True } if mp else {}
    if kp is not None : kw['keep'] = kp
    return m, FIT[f]( x, m, **kw ), kp

def apply( ctx, op, m, ft, ref, st, tag, check ) :
    if op[0] == 'setpar' :
        m.parameters = numpy.linspace( 3.0, -2.0, m.npchain )
        return
    if op[0] == 'norm' :
        n = norms( ref.np, op[1] )
        st['n'] = st['n'] + [n]
        ft.normalize( n[0], n[1], n[2] )
        return
    y, w, a = YS[op[1]].copy(), WS[op[2]], AS[op[3]]
    w = None if w is None else w.copy()
    a = a if a is None or not hasattr( a, 'copy' ) else a.copy()
    k = keeps( ref.np )[op[4]]
    kk = None if k is None else dict( k )
    sh = lambda v : v.reshape( 3, 3 ) if ref.map and hasattr( v, 'reshape' ) else v
    kw = {}
    if w is not None : kw['weights'] = sh( w )
    if k is not None : kw['keep'] = kk
    if op[0] == 'fit' :
        if a is not None : kw['accuracy'] = sh( a )
        par = ft.fit( sh( y ), **kw )
        yf = ft.yfit
    else :
        yf = ft.modelFit( sh( y ), **kw )
        par = m.parameters
    if not check : return
    keep = k if k is not None else st['ck']
    r = ref.solve( YS[op[1]], WS[op[2]], AS[op[3]], keep, st['n'] )
    if ref.np > 0 : ctx.near( tag + ':par', par, r['p'], 1e-7, 1e-8 )
    ctx.near( tag + ':model.parameters', m.parameters, r['p'], 1e-7, 1e-8 )
    ctx.near( tag + ':chisq', ft.chisq, r['chi'], 1e-7 )
    ctx.near( tag + ':yfit', numpy.ravel( yf ), r['yfit'], 1e-7, 1e-8 )
    ctx.true( tag + ':yfit-shape', numpy.shape( yf ) == ( ( 3, 3 ) if ref.map else ( 9, ) ) )
    ctx.eq( tag + ':npfit', ft.npfit, len( r['fi'] ) )
    ctx.true( tag + ':inputs-changed', numpy.array_equal( y, YS[op[1]] ) and ( w is None or numpy.array_equal( w, WS[op[2]] ) ) and
                ( a is None or numpy.array_equal( a, AS[op[3]] ) ) and kk == k )
    ctx.outcome( r['p'] )

def run_case( case, ctx ) :
    c = case['c']
    if case['t'] == 'H' :
        f, pr, ck = c
        ref = Ref( pr )
        ops = alphabet( ref.np, case['depth'] > 2 )
        firsts = ops
        for d in range( 1, case['depth'] + 1 ) :
            for hist in itertools.product( ops, repeat=d ) :
                if hist[-1][0] in ( 'norm','setpar' ) : continue
                if d > 1 and any( h[0] == 'fit' and h[1] == 1 for h in hist[:-1] ) : continue       # y1 only last
                if d > 2 and hist[0][0] == 'fit' and hist[1][0] == 'fit' and hist[0] != hist[1] and hist[0][4] == hist[1][4] : continue
                m, ft, kp = setup( f, pr, ck )
                st = { 'n' : [], 'ck' : kp }
                for i, op in enumerate( hist ) :
                    ctx.ev(); ctx.trans()
                    apply( ctx, op, m, ft, ref, st, '%s|%s' % ( opn( op ), '>'.join( opn( h ) for h in hist[:i] ) ), i == d - 1 )
                ctx.trace()
    elif case['t'] == 'L' :
        limitsfit( ctx, *c )
    else :
        refuse( ctx, FIT[c] )

def opn( op ) : return '.'.join( str( o ) for o in op )

def limitsfit( ctx, f, pr ) :
    """ limitsFit : parameters beyond their limits are put on the limit, the others refitted """
    ref = Ref( pr )
    np = ref.np
    for iy in ( 0, 1 ) :
        for w in ( 'w0','wa' ) :
            free = ref.solve( YS[iy], WS[w], None, None )['p']
            for ck in keeps( np ) :
                if ck == 'kz' : continue
                for kn, kp in keeps( np ).items() :
                    for cut in itertools.product( ( 0, -1, 1 ) if np < 4 else ( 0, 1 ), repeat=np ) :
                        lo = numpy.where( numpy.array( cut ) == 1, free + 0.4, free - 5.0 )
                        hi = numpy.where( numpy.array( cut ) == -1, free - 0.4, free + 5.0 )
                        mk, x, mx, mp = PROB[pr]
                        m = mk()
                        m.setLimits( lo, hi )
                        kc = keeps( np )[ck]
                        ft = FIT[f]( x, m, keep=kc )
                        par = ft.limitsFit( YS[iy].copy(), weights=WS[w], keep=kp )
                        ctx.ev(); ctx.trace()
                        keep = dict( kp if kp is not None else kc or {} )
                        orig = list( keep )
                        tag = 'limitsFit.%d.%s.%s.%s' % ( iy, w, ck, kn )
                        for n in range( np + 1 ) :
                            r = ref.solve( YS[iy], WS[w], None, keep )
                            p = r['p']
                            out = [k for k in r['fi'] if p[k] < lo[k] or p[k] > hi[k]]
                            if not out : break
                            for k in out : keep[k] = lo[k] if p[k] < lo[k] else hi[k]
                        ctx.near( tag + ':par', par, p, 1e-7, 1e-7, detail='cut %s' % ( cut, ) )
                        ctx.near( tag + ':model', m.parameters, p, 1e-7, 1e-7 )
                        ctx.true( tag + ':limits', all( lo[k] - 1e-9 <= m.parameters[k] <= hi[k] + 1e-9 for k in range( np ) if k not in orig ) )
                        # the limits do not stick
                        par = ft.fit( YS[iy] )
                        ctx.near( tag + ':fit-after', par, ref.solve( YS[iy], None, None, kc )['p'], 1e-7, 1e-7 )

def refuse( ctx, F ) :
    """ non finite input is refused before anything changes """
    bad = [numpy.nan, numpy.inf, -numpy.inf]
    for at in range( 9 ) :
        for b in bad :
            for where in ( 'y','w','a' ) :
                m = poly( 1 )
                m.parameters = A( 0.3, 0.4 )
                ft = F( X1, m )
                v = { 'y' : YS[0].copy(), 'w' : WS['wa'].copy(), 'a' : AS['aa'].copy() }
                v[where][at] = b
                ctx.ev()
                try :
                    ft.fit( v['y'], weights=v['w'], accuracy=v['a'] )
                    ctx.bad( 'accepted:' + where )
                except ValueError : pass
                ctx.near( 'refused-changed:' + where, m.parameters, A( 0.3, 0.4 ), 0, 0 )
        for b in ( 0.0, -1.0 ) :
            ft = F( X1, poly( 1 ) )
            a = AS['aa'].copy()
            a[at] = b
            ctx.ev()
            try :
                ft.fit( YS[0], accuracy=a )
                ctx.bad( 'accepted:accuracy%g' % b )
            except ValueError : pass
    for b in ( 0.0, -1.0, numpy.nan ) :
        try :
            F( X1, poly( 1 ) ).fit( YS[0], accuracy=b )
            ctx.bad( 'accepted:accuracy-scalar' )
        except ValueError : pass
    xn = X1.copy(); xn[3] = numpy.nan
    for mk in ( lambda : F( xn, poly( 1 ) ), lambda : F( X2, poly( 1 ) ), lambda : F( X1, B.PolySurfaceModel( 1 ) ), lambda : F( X1, comp()._next ) ) :
        ctx.ev()
        try :
            mk()
            ctx.bad( 'constructor-accepted' )
        except ValueError : pass
    ctx.trace()
