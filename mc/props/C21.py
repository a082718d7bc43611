""" C21 containers: SampleList, WalkerList, PhantomCollection against simple reference lists, over all histories of operations """
import numpy, math, itertools
import BayesicFitting as B
from BayesicFitting.source.SampleList import SampleList
from BayesicFitting.source.Sample import Sample
from BayesicFitting.source.Walker import Walker
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection
from BayesicFitting.source.ClassicProblem import ClassicProblem
from BayesicFitting.source.ErrorsInXandYProblem import ErrorsInXandYProblem

LEVEL = 'model_checking'
RULE = 'all histories of operations up to a depth on the real containers, in step with plain reference lists; every observer compared after each operation'
ASSUME = ['lists of at most 8 items; 2 parameters, 1 hyperparameter; dynamic collections of 2 numbers of parameters']
BOUNDS = { 'quick' : 'histories of depth 5 (4 for the sample list)', 'thorough' : 'depth 7 (6)' }
BUDGET = { 'quick' : 100, 'thorough' : 800 }

X = numpy.array( [0.0,1.0,2.0] )
Y = numpy.array( [1.0,3.0,4.5] )
def model() : return B.PolynomialModel( 1 )
def problem() : return ClassicProblem( model(), xdata=X, ydata=Y )

WOPS = ['add','addn','set0','setL','setbeyond','setN','copy01','copyL0','copyfrom','insA','insB','insC','cropA','cropB','mut']
SOPS = ['addA','addB','addC','copy0L','copyL0','weed1','weed2','weedN','norm','set0','addn','mut']
POPS = ['A2','B2','C2','D2','A3','C3','mA2','mB2','mA3','mB3','mI2','mC2']
LV = { 'A' : -3.0, 'B' : -1.0, 'C' : -2.0, 'D' : -3.0 }

def cases( tier ) :
    full = tier != 'quick'
    dw, ds, dp = ( 6, 6, 6 ) if full else ( 4, 4, 5 )
    out = []
    for n in ( 0, 1, 2 ) :
        for a in WOPS : out += [{ 'key' : 'walker.%d.%s' % ( n, a ), 't' : 'W', 'a' : [n, a, dw if n < 2 else dw - 1] }]
    for n in ( 1, 3 ) :
        for a in SOPS : out += [{ 'key' : 'sample.%d.%s' % ( n, a ), 't' : 'S', 'a' : [n, a, ds] }]
    for dyn in ( False, True ) :
        for a in POPS : out += [{ 'key' : 'phantom.%s.%s' % ( dyn, a ), 't' : 'P', 'a' : [dyn, a, dp] }]
    for kind in ( 'classic','xy','order','noscale' ) : out += [{ 'key' : 'convert.%s' % kind, 't' : 'T', 'a' : [kind] }]
    return out

def run_case( case, ctx ) : globals()['do' + case['t']]( ctx, case, *case['a'] )

# ---------------------------------------------------------------- walkers
def mkw( pr, k, L ) :
    w = Walker( 77, pr, numpy.array( [0.1 * k, -0.2 * k, 1.0 + k] ), numpy.array( [0,1,-1] ) )
    w.logL = L
    return w

def ref( w, k, L ) : return { 'id' : w.id, 'p' : ( 0.1 * k, -0.2 * k, 1.0 + k ), 'L' : L, 'parent' : -1, 'start' : 0 }

def doW( ctx, case, n, first, depth ) :
    pr = problem()
    for seq in itertools.product( WOPS, repeat=depth - 1 ) :
        ops = ( first, ) + seq
        # prune: histories that grow too long are cut by the reference
        wl = WalkerList( problem=pr, ensemble=n, allpars=numpy.array( [0.0,0.0,1.0] ), fitIndex=numpy.array( [0,1,-1] ) )
        rf = [{ 'id' : k, 'p' : ( 0.0, -0.0, 1.0 ), 'L' : 0.0, 'parent' : -1, 'start' : 0 } for k in range( n )]
        cnt = n
        k = 0
        for i, op in enumerate( ops ) :
            k += 1
            asc = all( a['L'] <= b['L'] for a, b in zip( rf, rf[1:] ) )
            lab = ' '.join( ops[:i+1] )
            if op in ( 'add', 'addn' ) :
                m = 1 if op == 'add' else 2
                w = mkw( pr, k, -1.5 )
                wl.addWalkers( w, m )
                for j in range( m ) :
                    rf += [dict( ref( w, k, -1.5 ), id=cnt )]
                    cnt += 1
            elif op in ( 'set0', 'setL', 'setbeyond', 'setN' ) :
                w = mkw( pr, k, -0.5 - 0.25 * k )
                at = { 'set0' : 0, 'setL' : len( rf ) - 1, 'setbeyond' : len( rf ), 'setN' : None }[op]
                if at is not None and at < 0 : break
                got = wl.setWalker( w, at )
                if at is None or at >= len( rf ) :
                    rf += [dict( ref( w, k, w.logL ), id=cnt )]
                    cnt += 1
                    at = len( rf ) - 1
                else : rf[at] = ref( w, k, w.logL )
                ctx.eq( 'index', got, at, lab )
            elif op in ( 'copy01', 'copyL0', 'copyfrom' ) :
                if len( rf ) < 2 : break
                s, d = ( 0, 1 ) if op == 'copy01' else ( len( rf ) - 1, 0 )
                if op == 'copyfrom' :
                    o = WalkerList()
                    o.setWalker( mkw( pr, k, -9.0 ), None )
                    wl.copy( 0, 1, wlist=o, start=k )
                    rf[1] = dict( ref( o[0], k, -9.0 ), id=rf[1]['id'], parent=0, start=k )
                    ctx.true( 'copy-new', wl[1] is not o[0] and wl[1].allpars is not o[0].allpars, lab )
                else :
                    wl.copy( s, d, start=k )
                    rf[d] = dict( rf[s], id=rf[d]['id'], parent=s, start=k )
                    ctx.true( 'copy-new', wl[d] is not wl[s] and wl[d].allpars is not wl[s].allpars, lab )
            elif op[:3] == 'ins' :
                if not asc : break
                L = LV[op[3]]
                w = mkw( pr, k, L )
                old = list( wl )
                wl0 = wl
                wl = wl.insertWalker( w )
                if wl is not wl0 : ctx.true( 'insert-input', list( wl0 ) == old, lab )
                at = next( ( j for j, r in enumerate( rf ) if r['L'] > L ), len( rf ) )
                rf.insert( at, ref( w, k, L ) )
                cnt += 1
            elif op[:4] == 'crop' :
                if not asc : break
                L = LV[op[4]]
                wl = wl.cropOnLow( L )
                rf = [r for r in rf if r['L'] > L]
            elif op == 'mut' :
                if not rf : break
                wl[0].allpars[0] = 9.0 + k
                wl[0].logL = -1.25
                rf[0] = dict( rf[0], p=( 9.0 + k, ) + rf[0]['p'][1:], L=-1.25 )
            if len( rf ) > 8 : break
            compareW( ctx, wl, rf, lab )
            ctx.trans()
        ctx.trace()

def compareW( ctx, wl, rf, lab ) :
    ctx.ev( 1 )
    ctx.outcome( tuple( ( r['id'], r['L'] ) for r in rf ) )
    ctx.true( 'type', isinstance( wl, WalkerList ), lab )
    got = [{ 'id' : w.id, 'p' : tuple( w.allpars ), 'L' : w.logL, 'parent' : w.parent, 'start' : w.start } for w in wl]
    for g, r in zip( got, rf ) :
        if r['id'] == 77 : r['id'] = g['id'] = 77         # inserted or set walkers keep their own id
    ctx.true( 'walkers', got == rf, '%s: got %s expected %s' % ( lab, got, rf ) )
    if not rf : return
    ctx.true( 'LogLevolution', list( wl.getLogLikelihoodEvolution() ) == [r['L'] for r in rf], lab )
    lo, kl = wl.getLowLogL()
    ml = min( r['L'] for r in rf )
    ctx.true( 'low', lo == ml and rf[kl]['L'] == ml, '%s: %s' % ( lab, ( lo, kl ) ) )
    ctx.true( 'allPars', numpy.array_equal( wl.allPars(), numpy.array( [r['p'] for r in rf] ) ), lab )
    ctx.true( 'parameters', numpy.array_equal( wl.getParameterEvolution(), numpy.array( [r['p'][:2] for r in rf] ) ), lab )
    ctx.true( 'parameter1', numpy.array_equal( wl.getParameterEvolution( kpar=1 ), numpy.array( [r['p'][1] for r in rf] ) ), lab )
    ctx.true( 'scale', numpy.array_equal( wl.getScaleEvolution(), numpy.array( [r['p'][2:] for r in rf] ) ), lab )
    if all( a['L'] <= b['L'] for a, b in zip( rf, rf[1:] ) ) :
        for L in ( -3.5, -3.0, -2.0, -1.0, 0.5 ) : ctx.eq( 'firstIndex', wl.firstIndex( L ), next( ( j for j, r in enumerate( rf ) if r['L'] > L ), len( rf ) ), lab )

# ---------------------------------------------------------------- samples
def doS( ctx, case, n, first, depth ) :
    mdl = model()
    def mks( k, w, L ) :
        s = Sample( 50 + k, 7, k, mdl, parameters=numpy.array( [0.3 * k, 1.0 - k] ), fitIndex=numpy.array( [0,1] ) )
        s.hyper = numpy.array( [0.5 + k] )
        s.logL, s.logW = L, w
        return s
    for seq in itertools.product( SOPS, repeat=depth - 1 ) :
        ops = ( first, ) + seq
        sl = SampleList( mdl, n, parameters=numpy.array( [0.5,0.25] ), ndata=3 )
        rf = [{ 'id' : k, 'p' : ( 0.5, 0.25 ), 'h' : 2.0, 'L' : 0.0, 'W' : 0.0, 'parent' : -1, 'start' : 0 } for k in range( n )]
        for s in sl : s.hyper = numpy.array( [2.0] )
        cnt, norm = n, False
        for i, op in enumerate( ops ) :
            k = i + 1
            lab = ' '.join( ops[:i+1] )
            if op[:3] == 'add' and op != 'addn' :
                W = { 'A' : -1.0, 'B' : -4.0, 'C' : 0.5 }[op[3]]
                s = mks( k, W, 0.1 * k )
                sl.add( s )
                rf += [{ 'id' : cnt, 'p' : ( 0.3 * k, 1.0 - k ), 'h' : 0.5 + k, 'L' : 0.1 * k, 'W' : W, 'parent' : 50 + k, 'start' : k }]
                cnt += 1
                norm = False
            elif op == 'addn' :
                sl.addSamples( mdl, 2, numpy.array( [1.0,2.0] ) )
                for s in sl[-2:] : s.hyper = numpy.array( [1.0] )
                for j in range( 2 ) :
                    rf += [{ 'id' : cnt, 'p' : ( 1.0, 2.0 ), 'h' : 1.0, 'L' : 0.0, 'W' : 0.0, 'parent' : -1, 'start' : 0 }]
                    cnt += 1
            elif op in ( 'copy0L', 'copyL0' ) :
                if len( rf ) < 2 : break
                s, d = ( 0, len( rf ) - 1 ) if op == 'copy0L' else ( len( rf ) - 1, 0 )
                sl.copy( s, d )
                rf[d] = dict( rf[s], id=rf[d]['id'] )
                ctx.true( 'copy-new', sl[d] is not sl[s] and sl[d].parameters is not sl[s].parameters and sl[d].model is not sl[s].model, lab )
            elif op[:4] == 'weed' :
                m = { '1' : 1, '2' : 2, 'N' : None }[op[4]]
                sl.weed( m )
                if m is not None :
                    while len( rf ) > m : rf = rf[1:] if rf[0]['W'] < rf[-1]['W'] else rf[:-1]
            elif op == 'norm' :
                sl.normalize()
                t = math.log( sum( math.exp( r['W'] ) for r in rf ) )
                rf = [dict( r, W=r['W'] - t ) for r in rf]
                norm = True
            elif op == 'set0' :
                s = mks( k, -0.7, -5.0 )
                got = sl.sample( 0, s )
                ctx.true( 'sample', got is s and sl.sample( 0 ) is s, lab )
                rf[0] = { 'id' : 50 + k, 'p' : ( 0.3 * k, 1.0 - k ), 'h' : 0.5 + k, 'L' : -5.0, 'W' : -0.7, 'parent' : 7, 'start' : k }
            elif op == 'mut' :
                sl[0].parameters = numpy.array( [7.0, 8.0] )
                sl[0].logL = 3.0
                rf[0] = dict( rf[0], p=( 7.0, 8.0 ), L=3.0 )
            if len( rf ) > 8 : break
            compareS( ctx, sl, rf, norm, lab, op == 'norm' )
            ctx.trans()
        ctx.trace()

def compareS( ctx, sl, rf, norm, lab, now ) :
    ctx.ev( 1 )
    ctx.outcome( tuple( ( r['id'], r['L'], round( r['W'], 5 ) ) for r in rf ) )
    ctx.eq( 'length', len( sl ), len( rf ), lab )
    if len( sl ) != len( rf ) : return
    for g, r in zip( sl, rf ) :
        ctx.true( 'sample', g.id == r['id'] and tuple( g.parameters ) == r['p'] and g.hypars[0] == r['h'] and g.logL == r['L'] and abs( g.logW - r['W'] ) < 1e-12 and g.parent == r['parent'] and g.start == r['start'],
              '%s: got %s expected %s' % ( lab, ( g.id, g.parameters, g.hypars, g.logL, g.logW, g.parent, g.start ), r ) )
    ctx.true( 'Generation', list( sl.getGeneration() ) == [r['id'] for r in rf], lab )
    ctx.true( 'Parents', list( sl.getParentEvolution() ) == [r['parent'] for r in rf], lab )
    ctx.true( 'Start', list( sl.getStartEvolution() ) == [r['start'] for r in rf], lab )
    ctx.true( 'LogL', list( sl.getLogLikelihoodEvolution() ) == [r['L'] for r in rf], lab )
    ctx.true( 'Parameters', numpy.array_equal( sl.getParameterEvolution(), [r['p'] for r in rf] ) and numpy.array_equal( sl.getParameterEvolution( 1 ), [r['p'][1] for r in rf] ), lab )
    ctx.true( 'Scales', numpy.array_equal( sl.getScaleEvolution()[:,0], [r['h'] for r in rf] ), lab )
    w = numpy.exp( [r['W'] for r in rf] )
    ctx.true( 'Weights', numpy.allclose( sl.getWeightEvolution(), w, 1e-12 ) and numpy.allclose( [s.weight for s in sl], w, 1e-12 ), lab )
    lo, kl = sl.getLowLogL()
    ml = min( r['L'] for r in rf )
    ctx.true( 'low', lo == ml and rf[kl]['L'] == ml, lab )
    ctx.true( 'maxLikelihood', numpy.array_equal( sl.maxLikelihoodParameters, rf[-1]['p'] ) and sl.maxLikelihoodScale == rf[-1]['h'], lab )
    ctx.eq( 'npars', sl.getMaximumNumberOfParameters(), 2, lab )
    if now :
        ctx.near( 'sum-weights', float( numpy.sum( sl.getWeightEvolution() ) ), 1.0, 1e-12, 0, lab )
        P = numpy.array( [r['p'] for r in rf] )
        H = numpy.array( [r['h'] for r in rf] )
        av = w @ P
        ctx.near( 'parameters-average', sl.parameters, av, 1e-10, 1e-12, lab )
        sd = numpy.sqrt( numpy.maximum( w @ ( P - av ) ** 2, 0 ) )
        ctx.near( 'stdevs', sl.stdevs, sd, 1e-6, 3e-7, lab )
        ctx.near( 'scale', sl.scale, w @ H, 1e-10, 0, lab )
        ctx.near( 'stdevScale', sl.stdevScale, math.sqrt( max( w @ ( H - w @ H ) ** 2, 0 ) ), 1e-6, 3e-7, lab )
        c = numpy.cumsum( w )
        if all( abs( v - 0.5 ) > 1e-9 for v in c ) : ctx.eq( 'median', sl.getMedianIndex(), int( numpy.argmax( c >= 0.5 ) ), lab )
        fr = SampleList( sl[0].model, 0 )
        fr += sl
        ctx.near( 'modus', rf[fr.modusIndex]['W'], max( r['W'] for r in rf ), 1e-12, 1e-12, lab )
        ctx.true( 'modusParameters', numpy.array_equal( fr.modusParameters, rf[fr.modusIndex]['p'] ), lab )
        xt = numpy.array( [-1.0,0.5] )
        Yt = numpy.array( [p[0] + p[1] * xt for p in P] )
        ctx.near( 'average', sl.average( xt ), w @ Yt, 1e-10, 1e-12, lab )
        ctx.near( 'mcerror', sl.monteCarloError( xt ), numpy.sqrt( numpy.maximum( w @ ( Yt - w @ Yt ) ** 2, 0 ) ), 1e-6, 1e-6, lab )

# ---------------------------------------------------------------- phantoms
def doP( ctx, case, dyn, first, depth ) :
    prs = { 2 : problem(), 3 : ClassicProblem( B.PolynomialModel( 2 ), xdata=X, ydata=Y ) }
    ops0 = POPS if dyn else [o for o in POPS if not o.endswith( '3' )]
    if first not in ops0 : return
    for seq in itertools.product( ops0, repeat=depth - 1 ) :
        ops = ( first, ) + seq
        pc = PhantomCollection( dynamic=dyn )
        pc.minpars = 1
        rf = { 2 : [], 3 : [] }
        low = { 2 : -math.inf, 3 : -math.inf }
        rng = { 2 : None, 3 : None }
        calls = 0
        for i, op in enumerate( ops ) :
            np = int( op[-1] )
            lab = ' '.join( ops[:i+1] )
            if op[0] == 'm' :
                L = { 'A' : -2.5, 'B' : -1.5, 'I' : -math.inf, 'C' : -2.0 }[op[1]]
                lo, hi = pc.getParamMinmax( L, np=np )
                fresh = L > low[np] or rng[np] is None
                if fresh :
                    low[np] = L
                    rf[np] = [r for r in rf[np] if r[0] > L]
                # limits enclose the points that were above the level when it was set, nothing but points that were stored
                ps = [r[1] for r in rf[np]]
                if lo is None :
                    ctx.true( 'range-none', hi is None and len( ps ) <= ( 1 if dyn else 0 ), lab )
                    rng[np] = None
                elif fresh :
                    ctx.true( 'range', len( ps ) > 0 and numpy.array_equal( lo, numpy.min( ps, axis=0 ) ) and numpy.array_equal( hi, numpy.max( ps, axis=0 ) ), '%s: got %s %s for %s' % ( lab, lo, hi, ps ) )
                    rng[np] = ( tuple( lo ), tuple( hi ) )
                else :                       # as it was, or that of all phantoms present
                    ctx.true( 'range-kept', ( tuple( lo ), tuple( hi ) ) == rng[np] or ( len( ps ) > 0 and numpy.array_equal( lo, numpy.min( ps, axis=0 ) ) and numpy.array_equal( hi, numpy.max( ps, axis=0 ) ) ), lab )
            else :
                L = LV[op[0]]
                w = Walker( i, prs[np], numpy.array( [0.5 * i - 1.0] + [( 3 * i ) % 5 * 1.0] * ( np - 1 ) + [1.0] ), numpy.arange( np ) )
                w.logL = L
                pc.storeItems( w )
                calls += 1
                at = next( ( j for j, r in enumerate( rf[np] ) if r[0] > L ), len( rf[np] ) )
                rf[np].insert( at, ( L, tuple( w.allpars ), i ) )
            ctx.trans()
            ctx.ev( 1 )
            for q in ( 2, 3 ) if dyn else ( 2, ) :
                w0 = Walker( 0, prs[q], numpy.zeros( q + 1 ), numpy.arange( q ) )
                li = pc.getList( w0 )
                got = [] if li is None else [( w.logL, tuple( w.allpars ), w.id ) for w in li]
                ctx.true( 'phantoms', got == rf[q], '%s: got %s expected %s' % ( lab, got, rf[q] ) )
                ctx.eq( 'length', pc.length( q ), len( rf[q] ), lab )
            if dyn : ctx.eq( 'length-all', int( pc.length() ), len( rf[2] ) + len( rf[3] ), lab )
            ctx.eq( 'ncalls', pc.ncalls, calls, lab )
            ctx.outcome( tuple( r[2] for r in rf[2] + rf[3] ) )
        ctx.trace()

# ---------------------------------------------------------------- walker to sample
def doT( ctx, case, kind ) :
    from BayesicFitting.source.SalesmanProblem import SalesmanProblem
    fi = None
    if kind == 'classic' : pr, al, npm, nn, nh = problem(), [1.0,2.0,3.0], 2, 0, 1
    elif kind == 'noscale' : pr, al, npm, nn, nh = problem(), [1.0,2.0], 2, 0, 0
    elif kind == 'xy' : pr, al, npm, nn, nh = ErrorsInXandYProblem( model(), xdata=X, ydata=Y, prior=B.GaussPrior() ), [1.0,2.0,0.1,1.1,2.1,3.0], 2, 3, 1
    else : pr, al, npm, nn, nh = SalesmanProblem( numpy.array( [[0.0,0],[1,0],[1,1],[0,2.0]] ) ), [2,0,1,3], 4, 0, 0
    al = numpy.array( al )
    for par, st, pl in itertools.product( ( -1, 4 ), ( 0, 9 ), ( 0.0, -1.5 ) ) :
        w = Walker( 6, pr, al, numpy.arange( npm ), logL=-3.0, parent=par, start=st )
        w.logPrior = pl
        for v in ( w, w.copy(), w.copy().copy() ) :
            ctx.true( 'walker', ( v.id, v.parent, v.start, v.logL, v.logPrior, tuple( v.allpars ) ) == ( 6, par, st, -3.0, pl, tuple( al ) ), str( v ) )
            s = v.toSample( -0.25 )
            for t in ( s, s.copy() ) :
                ctx.true( 'sample', ( t.id, t.parent, t.start, t.logW ) == ( 6, par, st, -0.25 ) and abs( t.logL - ( -3.0 + pl ) ) < 1e-14, str( ( t.id, t.parent, t.start, t.logW, t.logL ) ) )
                ctx.true( 'split', tuple( t.parameters ) == tuple( al[:npm] ) and ( tuple( t.nuisance ) if nn else () ) == tuple( al[npm:npm+nn] ) and ( tuple( t.hyper ) if nh else () ) == tuple( al[npm+nn:] ), kind )
                ctx.true( 'allpars', tuple( t.allpars ) == tuple( al ), str( t.allpars ) )
                ctx.near( 'weight', t.weight, math.exp( -0.25 ), 1e-14, 0 )
        c = w.copy()
        c.allpars[0] = 3
        ctx.true( 'copy-independent', w.allpars[0] == al[0], kind )
        w.allpars[0] = al[0]
        x = Walker( 1, pr, al, None )
        x.allpars[0] = 7
        ctx.true( 'input-kept', al[0] == ( 1.0 if kind != 'order' else 2 ), kind )
        ctx.trans()
    ctx.trace()
    ctx.ev( 1 )
    ctx.outcome( kind )
