""" C22 order problems: cost, engines and NestedSolver """
import numpy, math, itertools, warnings
import BayesicFitting as B
from BayesicFitting.source.SalesmanProblem import SalesmanProblem
from BayesicFitting.source.NestedSolver import NestedSolver
from BayesicFitting.source.DistanceCostFunction import DistanceCostFunction
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.Walker import Walker
from BayesicFitting.source.PhantomCollection import PhantomCollection
from BayesicFitting.source.Explorer import Explorer
import BayesicFitting.source.Explorer as EX
import importlib
from choice import ChoiceRNG, explore

LEVEL = 'model_checking'
RULE = ( 'cost: all orders of up to 6 nodes x distances x weights x scale x oneway against direct formulas; engines: all random choices within a deviation bound from all orders at all thresholds and '
         'ids of walkers in any order: permutation, cost, threshold and other walkers; all orders can be reached; solver: real runs, survivors and reproducibility' )
ASSUME = ['3 to 6 nodes in at most 3 dimensions']
BOUNDS = { 'quick' : 'all orders of 5 nodes; 2 deviations in the first 6 draws of an engine', 'thorough' : 'all orders of 6 nodes; 3 deviations in 10 draws' }
BUDGET = { 'quick' : 100, 'thorough' : 600 }

def eng( n ) : return getattr( importlib.import_module( 'BayesicFitting.source.%sEngine' % n ), n + 'Engine' )
ENG = ['Move','Reverse','Switch','Loop','Near','Shuffle']
PT = numpy.array( [[0.0,0.0],[1.0,0.2],[0.9,1.1],[-0.1,0.8],[0.5,0.6],[2.0,-1.0]] )
GEO = numpy.array( [[10.0,50.0],[170.0,-30.0],[-160.0,20.0],[5.0,89.0],[-70.0,-45.0],[100.0,0.0]] )
GRID = numpy.array( [[0,0],[0,1],[1,1],[1,0],[2,0],[2,1]], dtype=float )

def table( n ) :
    return numpy.array( [[0.0 if i == j else 1.0 + ( ( 3 * i + 5 * j ) % 7 ) for j in range( n )] for i in range( n )] )

def user( xdata, pars, roll=1 ) :
    xd = xdata[pars]
    return numpy.max( numpy.abs( xd - numpy.roll( xd, -roll, axis=0 ) ), axis=1 )

def refdist( kind, xd, i, j ) :
    a, b = xd[i], xd[j]
    if kind == 'manhattan' : return sum( abs( u - v ) for u, v in zip( a, b ) )
    if kind == 'euclid' : return math.sqrt( sum( ( u - v ) ** 2 for u, v in zip( a, b ) ) )
    if kind == 'user' : return max( abs( u - v ) for u, v in zip( a, b ) )
    if kind == 'table' : return table( len( xd ) )[i,j]
    def unit( p ) :
        lo, la = math.radians( p[0] ), math.radians( p[1] )
        return numpy.array( [math.cos( la ) * math.cos( lo ), math.cos( la ) * math.sin( lo ), math.sin( la )] )
    u, v = unit( a ), unit( b )
    return math.atan2( numpy.linalg.norm( numpy.cross( u, v ) ), float( u @ v ) )

def mkprob( kind, n, weights=None, scale=None, oneway=False, xd=None ) :
    if xd is None : xd = ( GEO if kind == 'spherical' else PT )[:n]
    kw = { 'distance' : kind if kind != 'user' else user }
    if kind == 'table' : kw['table'] = table( n )
    return SalesmanProblem( xdata=xd.copy(), weights=weights, scale=scale, oneway=oneway, **kw )

KINDS = ['euclid','manhattan','spherical','table','user']

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for k in KINDS :
        for n in ( 3, 4, 5 ) + ( ( 6, ) if full else () ) :
            for w in ( 0, 1 ) :
                for s in ( None, 2.5 ) :
                    for o in ( False, True ) : out += [{ 'key' : 'cost.%s.%d.%d.%s.%s' % ( k, n, w, s, o ), 't' : 'C', 'a' : [k, n, w, s, o] }]
    for e in ENG + ['StartOrder'] :
        for k, n in ( ( 'euclid', 3 ), ( 'euclid', 4 ), ( 'euclid', 5 ), ( 'spherical', 4 ), ( 'table', 4 ), ( 'grid', 4 ), ( 'grid', 5 ) ) + ( ( ( 'euclid', 6 ), ( 'grid', 6 ) ) if full else () ) :
            for how in ( 'plain','explorer','copy' ) :
                if e == 'StartOrder' and how == 'explorer' : continue
                out += [{ 'key' : 'eng.%s.%s.%d.%s' % ( e, k, n, how ), 't' : 'E', 'a' : [e, k, n, how], 'full' : full }]
    for e in [['Move'],['Switch'],['Shuffle'],['Move','Reverse','Switch','Loop']] :
        for n in ( 3, 4, 5 ) : out += [{ 'key' : 'reach.%s.%d' % ( '+'.join( e ), n ), 't' : 'R', 'a' : [e, n] }]
    for engs in ( None, ['move'], ['reverse'], ['switch'], ['shuffle'], ['near','move'], ['loop','switch'] ) :
        for disc in ( 1, 2, 3 ) :
            for n in ( 4, 6 ) :
                out += [{ 'key' : 'solve.%s.%d.%d' % ( '-'.join( engs ) if engs else 'default', disc, n ), 't' : 'S', 'a' : [engs, disc, n], 'full' : full }]
    return out

def run_case( case, ctx ) :
    warnings.simplefilter( 'ignore' )
    numpy.seterr( all='ignore' )
    globals()['do' + case['t']]( ctx, case, *case['a'] )

def doC( ctx, case, kind, n, w, scale, oneway ) :
    wt = numpy.array( [1.0,2.0,0.5,3.0,1.5,0.7] )[:n] if w else None
    pr = mkprob( kind, n, wt, scale, oneway )
    xd = pr.xdata
    D = [[refdist( kind, xd, i, j ) for j in range( n )] for i in range( n )]
    md = min( D[i][j] for i in range( n ) for j in range( n ) if i != j )
    if scale is None and kind != 'table' : ctx.near( 'scale', pr.scale, md, 1e-10, 0 )
    if scale is not None : ctx.near( 'scale', pr.scale, scale, 0, 0 )
    ctx.eq( 'npars', pr.npars, n )
    ctx.eq( 'isDynamic', pr.isDynamic(), False )
    ed = DistanceCostFunction()
    prs = [pr, pr.copy(), pr.copy().copy()]
    for p in itertools.permutations( range( n ) ) :
        e = [D[p[i]][p[( i + 1 ) % n]] / pr.scale for i in range( n )]
        if oneway : e[-1] = 0.0
        if w : e = [v * wt[p[i]] for i, v in enumerate( e )]
        a = numpy.array( p )
        for k, q in enumerate( prs ) :
            ctx.near( 'result', q.result( a ), e, 1e-10, 1e-12, 'order %s copy %d' % ( p, k ) )
            L = ed.logLikelihood( q, a )
            ctx.near( 'logLikelihood', L, -sum( e ), 1e-10, 1e-12, 'order %s' % ( p, ) )
            ctx.near( 'logLdata', ed.logLdata( q, a ), [-v for v in e], 1e-10, 1e-12 )
        ctx.eq( 'order-changed', tuple( a ), p )
        ctx.outcome( round( sum( e ), 6 ) )
    ctx.trans( math.factorial( n ) )

def ring( pr, ed, orders, ids ) :
    """ walker list; ids of the walkers are not their place """
    wl = WalkerList()
    for k, o in enumerate( orders ) :
        w = Walker( ids[k], pr, numpy.array( o, dtype=int ), numpy.arange( len( o ) ) )
        w.id = ids[k]
        w.logL = ed.logLikelihood( pr, w.allpars )
        wl.append( w )
    wl._count = len( orders )
    return wl

class NS : pass

def doE( ctx, case, e, kind, n, how ) :
    full = case['full']
    pr = mkprob( 'euclid', n, xd=GRID[:n] ) if kind == 'grid' else mkprob( kind, n )
    ed = DistanceCostFunction()
    perms = list( itertools.permutations( range( n ) ) )
    Ls = sorted( { ed.logLikelihood( pr, numpy.array( p ) ) for p in perms } )
    cls = eng( e )
    starts = perms if n < 5 else perms[::7] if n == 5 else perms[::60]
    for si, st in enumerate( starts ) :
        L0 = ed.logLikelihood( pr, numpy.array( st ) )
        lows = [-1e300] + [v for v in Ls if v <= L0]
        lows = sorted( { lows[0], lows[len( lows ) // 2], lows[-1] } )
        for low in lows if e != 'StartOrder' else lows[:1] :
            for kw, ids in ( ( 0, [0,1,2] ), ( 1, [2,0,1] ), ( 2, [1,2,0] ) )[si % 3:][:1] + ( ( ( 0, [2,1,0] ), ) if si % 2 else () ) :
                others = [perms[( 5 * si + 3 ) % len( perms )], perms[( 7 * si + 1 ) % len( perms )]]
                orders = list( others )
                orders.insert( kw, st )
                def run( rng ) :
                    wl = ring( pr, ed, orders, ids )
                    pc = PhantomCollection( dynamic=False )
                    en = cls( wl, ed, phantoms=pc )
                    if how == 'copy' : en = en.copy()
                    en.rng = rng
                    before = [( w.id, w.logL, tuple( w.allpars ) ) for w in wl]
                    lab = '%s from %s above %.4g ids %s kw %d' % ( rng.trace, st, low, ids, kw )
                    if e == 'StartOrder' :
                        numpy.random.seed( 5 )
                        en.execute( kw, low, fitIndex=numpy.arange( n ) )
                        t = None
                    elif how == 'explorer' :
                        ns = NS()
                        ns.walkers, ns.engines, ns.distribution, ns.rng, ns.rate, ns.maxtrials, ns.verbose, ns.usePhantoms = wl, [en], ed, rng, 5.0 * n, 3, 0, False
                        ex = Explorer( ns, threads=False )
                        ex.explore( [kw], low, 1 )
                        t = None
                    else : t = en.execute( kw, low )
                    lab = '%s from %s above %.4g ids %s kw %d' % ( [c[1] for c in rng.trace], st, low, ids, kw )
                    ctx.eq( 'walkers', len( wl ), 3, lab )
                    for k, w in enumerate( wl ) :
                        p = tuple( int( v ) for v in w.allpars )
                        if k != kw :
                            ctx.true( 'other-walker', ( w.id, w.logL, p ) == before[k], '%s: walker %d %s became %s' % ( lab, k, before[k], ( w.id, w.logL, p ) ) )
                            continue
                        ctx.true( 'permutation', sorted( p ) == list( range( n ) ), '%s gives %s' % ( lab, p ) )
                        ctx.true( 'integer', numpy.asarray( w.allpars ).dtype.kind == 'i', '%s gives %s' % ( lab, w.allpars ) )
                        ctx.true( 'threshold', w.logL >= low, lab )
                        if sorted( p ) == list( range( n ) ) : ctx.near( 'logL', w.logL, ed.logLikelihood( pr, numpy.array( p ) ), 1e-12, 0, lab )
                        ctx.eq( 'id', w.id, ids[k], lab )
                        if t is not None :
                            if p != st : ctx.true( 'moves-none', t > 0, '%s changed, 0 moves' % lab )
                            new = sum( 1 for l in [pc.phantoms] for q in l )
                            ctx.true( 'moves-claimed', t == 0 or new > 0, '%s: %d moves claimed, no walker was set' % ( lab, t ) )
                        ctx.outcome( p )
                    ctx.trans()
                    return None
                quickn = ( 2 if n < 5 else 1 ) if how == 'plain' else 1
                nex = explore( run, maxdev=3 if full and how == 'plain' and n < 5 else 2 if full else quickn, maxpoint=10 if full else 5 if n < 5 else 8, maxexec=20000 )
                ctx.trace( nex if isinstance( nex, int ) else 1 )

def doR( ctx, case, engs, n ) :
    """ every order can be reached from every order with a finite sequence of moves """
    pr = mkprob( 'euclid', n )
    ed = DistanceCostFunction()
    seen, todo = set(), [tuple( range( n ) )]
    while todo :
        st = todo.pop()
        if st in seen : continue
        seen.add( st )
        new = set()
        for e in engs :
            def run( rng ) :
                wl = ring( pr, ed, [st], [0] )
                en = eng( e )( wl, ed, phantoms=PhantomCollection( dynamic=False ) )
                en.rng = rng
                en.execute( 0, -1e300 )
                new.add( tuple( int( v ) for v in wl[0].allpars ) )
                ctx.trans()
            explore( run, maxdev=2, maxpoint=4, maxexec=3000 )
        todo += list( new - seen )
    ctx.ev( len( seen ) )
    canon = { tuple( numpy.roll( s, -s.index( 0 ) ) ) for s in seen }
    ctx.eq( 'reachable', len( canon ), math.factorial( n - 1 ), '%s' % engs )
    for s in seen : ctx.outcome( s )
    ctx.trace()

def doS( ctx, case, engs, disc, n ) :
    """ real runs """
    for seed in ( 1, 80409, 77 ) :
        res = []
        for rep in range( 2 ) :
            numpy.random.seed( 17 + rep )                  # nothing may depend on the global generator
            pr = mkprob( 'euclid', n )
            ns = NestedSolver( pr, ensemble=12, discard=disc, seed=seed, engines=engs, verbose=0, rate=2.0 if rep < 2 else 1.0 )
            ns.maxIterations = 15
            ns.minimumIterations = 8
            org = Explorer.explore
            ed = DistanceCostFunction()
            def exp( self, worst, low, it ) :
                worst = list( worst )
                before = [( w.id, w.logL, tuple( w.allpars ) ) for w in self.walkers]
                r = org( self, worst, low, it )
                ctx.eq( 'ensemble', len( self.walkers ), 12 )
                ids = [w.id for w in self.walkers]
                ctx.eq( 'ids', sorted( ids ), list( range( 12 ) ) )
                for k, w in enumerate( self.walkers ) :
                    p = tuple( int( v ) for v in w.allpars )
                    if k not in worst : ctx.true( 'survivor', ( w.id, w.logL, p ) == before[k], 'iteration %d walker %d: %s became %s' % ( it, k, before[k], ( w.id, w.logL, p ) ) )
                    else : ctx.true( 'threshold', w.logL >= low, '%g < %g' % ( w.logL, low ) )
                    ctx.true( 'permutation', sorted( p ) == list( range( n ) ), str( p ) )
                    ctx.near( 'logL', w.logL, ed.logLikelihood( pr, numpy.array( p ) ), 1e-12, 0 )
                ctx.trans()
                return r
            Explorer.explore = exp
            try : best = ns.solve()
            finally : Explorer.explore = org
            ll = [s.logL for s in ns.samples]
            ctx.true( 'ascending', all( a <= b for a, b in zip( ll, ll[1:] ) ), str( ll ) )
            ctx.eq( 'best', best.logL, max( ll ) )
            ctx.near( 'weights', sum( math.exp( s.logW ) for s in ns.samples ), 1.0, 1e-9, 0 )
            bp = best.parameters
            res += [( tuple( ll ), ns.logZ, None if bp is None else tuple( bp ) )]
            if bp is not None : ctx.near( 'best-order', ed.logLikelihood( pr, numpy.array( bp, dtype=int ) ), best.logL, 1e-12, 0 )
            ctx.trace()
        ctx.true( 'reproducible', res[0] == res[1], 'seed %d: %s and %s' % ( seed, str( res[0] )[:120], str( res[1] )[:120] ) )
        ctx.outcome( res[0][1] )
