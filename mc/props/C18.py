""" C18 engines on dynamic and modifiable models: birth, death, structure """
import numpy, math, itertools, warnings, copy
import BayesicFitting as B
from BayesicFitting.source.Walker import Walker
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection
from choice import ChoiceRNG, explore
import C07

LEVEL = 'model_checking'
RULE = ( 'all histories of birth, death, structure and parameter engines on an ensemble of walkers of different size, with the random draws deviating within bounds; after each step every walker is whole: '
         'parameters, model, fit index and likelihood belong together, only the selected walker changed and only as the engine says, parameters inside priors, kept ones kept, phantoms filed under their size' )
ASSUME = ['ensembles of 4 walkers, 6 data points']
BOUNDS = { 'quick' : 'histories of 2 engines, 1 deviating draw in the first 16', 'thorough' : 'histories of 3 engines, 1 deviation in 30; of 2, 2 deviations in 16' }
BUDGET = { 'quick' : 150, 'thorough' : 900 }

X = C07.X
Y = numpy.array( [0.3,0.8,1.4,1.0,0.4,0.1] )
HYP = { 'fix' : lambda : B.GaussErrorDistribution( scale=0.8 ), 'free' : lambda : B.GaussErrorDistribution( scale=0.8, limits=[0.2,3.0] ) }

def cases( tier ) :
    full = tier != 'quick'
    out = []
    for d in C07.DYN :
        for p in C07.PLACES :
            if d == 'treem' and p != 'D' : continue
            for h in HYP :
                for k in ( 'all','keep' ) :
                    if k == 'keep' and p[0] != 'E' : continue
                    if not full and d == 'splp' and p not in ( 'D','EDE' ) : continue
                    if not full and ( ( p == 'DE' and h == 'fix' ) or ( p == 'ED' and ( k == 'all' ) == ( h == 'free' ) ) or ( p == 'EDE' and h == 'fix' ) ) : continue
                    out += [{ 'key' : '%s.%s.%s.%s' % ( d, p, h, k ), 'size' : 9 if d == 'splp' else 5 if d[:3] == 'spl' else 1, 'd' : d, 'p' : p, 'c' : [d, p, h, k], 'full' : full }]
    for p in C07.PLACES :
        for h in HYP : out += [{ 'key' : 'reach.%s.%s' % ( p, h ), 'reach' : True, 'd' : 'reach', 'p' : p, 'c' : ['reach', p, h, 'all'], 'full' : full }]
    return out

def reach( case, ctx ) :
    """ each of the components of a repeating model can be the one that dies; the others stay as they are """
    d, p, h, k = case['c']
    for sub, npar, vals in (( B.GaussModel, 3, [[1.0,0.2,0.3],[0.5,0.5,0.4],[0.8,0.7,0.2]] ), ( lambda : B.PolynomialModel( 0 ), 1, [[0.1],[0.2],[0.3]] )) :
        for same in ( None, npar - 1 ) :
            if same is not None and npar == 1 : continue
            for n in ( 2, 3 ) :
                r = B.RepeatingModel( n, sub(), minComp=0, maxComp=4, dynamic=True, same=same )
                r.setLimits( [-3.0,-3.0,0.05][:npar], [3.0,3.0,2.0][:npar] )
                m = B.PolynomialModel( 1 ) if p[0] == 'E' else r
                if p[0] == 'E' :
                    m.setLimits( [-3.0], [3.0] )
                    m += r
                if p[-1] == 'E' and p != 'E' :
                    e = B.ExpModel()
                    e.parameters = [0.1,-0.2]
                    e.setLimits( [-3.0], [3.0] )
                    m += e
                off = 2 if p[0] == 'E' else 0
                comps = [list( v ) for v in vals[:n]]
                flat = comps[0] + [x for v in comps[1:] for x in ( v if same is None else v[:-1] )]
                if same is not None :
                    for v in comps : v[-1] = comps[0][-1]
                pars = numpy.array( ( [0.4,0.3] if off else [] ) + flat + ( [0.1,-0.2] if p[-1] == 'E' else [] ) )
                if not ctx.eq( 'reach: number of parameters', m.npars, len( pars ) ) : return
                m.parameters = pars.copy()
                errdis = HYP[h]()
                gone = set()
                def run( rng ) :
                    w = WalkerList()
                    pr = B.ClassicProblem( m.copy(), xdata=X, ydata=Y )
                    al = numpy.append( pars, 0.8 )
                    v = Walker( 0, pr, al, numpy.array( list( range( m.npars ) ) + ( [-1] if h == 'free' else [] ) ) )
                    v.logL = errdis.logLikelihood( pr, al )
                    w.append( v )
                    w._count = 1
                    e = B.DeathEngine( w, errdis, phantoms=PhantomCollection( dynamic=True ) )
                    e.rng = rng
                    mv = e.execute( 0, -1e300 )
                    ctx.ev(); ctx.trans()
                    if mv == 0 : return
                    a = w[0].allpars
                    np0 = len( pars ) - len( flat )
                    body = list( a[off:len( a ) - 1 - ( np0 - off )] )
                    got = []
                    if same is None : got = [body[i:i+npar] for i in range( 0, len( body ), npar )]
                    else :
                        first = body[:npar]
                        got = [first] + [body[i:i+npar-1] + [first[-1]] for i in range( npar, len( body ), npar - 1 )]
                    ok = len( got ) == n - 1 and all( any( numpy.allclose( g, c ) for c in comps ) for g in got ) and len( set( map( str, got ) ) ) == len( got )
                    ctx.true( 'death: components stay as they were', ok, '%s -> %s' % ( list( pars ), list( a ) ) )
                    gone.update( i for i, c in enumerate( comps ) if not any( numpy.allclose( g, c ) for g in got ) )
                explore( run, maxdev=2, maxpoint=6, limit=20000 )
                ctx.trace()
                ctx.outcome( ( n, npar, same, sorted( gone ) ) )
                ctx.true( 'death: every component can die', gone == set( range( n ) ), 'of %d only %s, same=%s' % ( n, sorted( gone ), same ) )

def dyn( m ) :
    off = 0
    while not isinstance( m, ( B.Dynamic, B.Modifiable ) ) :
        off += m.npbase
        m = m._next
    return m, off

def ncomp( q ) :
    return q.__dict__.get( 'ncomp' )

def setp( m, hi ) :
    """ priors for dynamic parts without """
    q, off = dyn( m )
    if isinstance( q, B.DecisionTreeModel ) and not q.hasPriors() : q.setLimits( [-2.0], [3.0] )

class World( object ) :
    def __init__( self, case, ctx ) :
        d, p, h, k = case['c']
        self.ctx = ctx
        self.refs = {}
        self.xd = C07.XT if d == 'treem' else X
        m = C07.build( case )
        setp( m, 3.0 )
        self.errdis = HYP[h]()
        self.kept = [1] if k == 'keep' else []
        self.hyp = [-1] if h == 'free' else []
        self.walkers = WalkerList()
        self.phantoms = PhantomCollection( dynamic=True )
        aux = ChoiceRNG( (), start=0.77 )
        for i in range( 4 ) :
            w = m.copy()
            q, off = dyn( w )
            for j in range( i % 3 ) :
                if q.isDynamic() : q.grow( offset=off, rng=aux )
            pr = B.ClassicProblem( w, xdata=self.xd, ydata=Y )
            u = aux.rand( w.npars ) * 0.9 + 0.05
            pars = numpy.array( [w.unit2Domain( u[j], j ) for j in range( w.npars )] )
            for j in self.kept : pars[j] = 0.35
            w.parameters = pars.copy()
            fi = numpy.array( [j for j in range( w.npars ) if j not in self.kept] + self.hyp, dtype=int )
            allp = numpy.append( pars, [0.8 + 0.1 * i if self.hyp else 0.8] )
            v = Walker( i, pr, allp, fi )
            v.logL = self.errdis.logLikelihood( pr, allp )
            self.walkers.append( v )
        self.walkers._count = 4
        self.walkers.sort( key=lambda v : v.logL )
        for v in self.walkers : self.phantoms.storeItems( v )
        for v in self.walkers : self.whole( v, 'start' )

    def fresh( self ) :
        """ an independent copy of the world (not with the package's own copy methods) """
        w = copy.copy( self )
        w.errdis, w.walkers, w.phantoms = copy.deepcopy( ( self.errdis, self.walkers, self.phantoms ) )
        return w

    def engine( self, name, rng ) :
        cls = { 'birth' : B.BirthEngine, 'death' : B.DeathEngine, 'struct' : B.StructureEngine, 'galilean' : B.GalileanEngine, 'step' : B.StepEngine, 'gibbs' : B.GibbsEngine, 'random' : B.RandomEngine, 'chord' : B.ChordEngine }[name]
        e = cls( self.walkers, self.errdis, phantoms=self.phantoms )
        e.rng = rng
        return e

    def snap( self, v ) :
        m = v.problem.model
        q, off = dyn( m )
        return ( v.id, v.logL, v.allpars.copy(), numpy.array( v.fitIndex ), numpy.array( m.parameters ), m.npars, str( C07.struct( q ) ), q.npbase, off, ncomp( q ) )

    def whole( self, v, tag ) :
        """ a walker belongs together """
        ctx = self.ctx
        m = v.problem.model
        q, off = dyn( m )
        st = C07.struct( q )
        n = C07.npexpected( q, st )
        ctx.true( tag + ':part size', q.npbase == n, 'npbase %d, structure %s needs %d' % ( q.npbase, st, n ) )
        tot = sum( C07.npexpected( part, C07.struct( part ) ) for part in C07.parts( m ) )
        ctx.true( tag + ':model size', m.npars == tot and len( m.parameters ) == tot, 'npars %d, %d parameters, expected %d' % ( m.npars, len( m.parameters ), tot ) )
        ctx.true( tag + ':number of parameters', len( v.allpars ) == tot + 1, '%d, model %d' % ( len( v.allpars ), tot ) )
        if len( v.allpars ) != tot + 1 : return
        fi = [k for k in range( tot ) if k not in self.kept] + self.hyp
        ctx.true( tag + ':fit index', list( v.fitIndex ) == fi, '%s expected %s' % ( list( v.fitIndex ), fi ) )
        lr = self.errdis.logLikelihood( v.problem, v.allpars )
        ctx.true( tag + ':logL', v.logL == lr, 'stored %.12g, computed %.12g' % ( v.logL, lr ) )
        res = numpy.zeros( len( self.xd ) )
        o = 0
        for part in C07.parts( m ) :
            k = part.npbase
            if part is q :
                key = ( str( C07.struct( part ) ), v.allpars[o:o+k].tobytes() )
                if key not in self.refs : self.refs[key] = C07.refresult( part, C07.struct( part ), self.xd, v.allpars[o:o+k] )
                r = self.refs[key]
            else : r = part.__class__().result( self.xd, v.allpars[o:o+k] )
            res = res + r
            o += k
        s = v.allpars[-1]
        ll = -0.5 * numpy.sum( ( ( Y - res ) / s ) ** 2 ) - len( Y ) * ( math.log( s ) + 0.5 * math.log( 2 * math.pi ) )
        ctx.near( tag + ':likelihood of this structure', v.logL, ll, 1e-8, 1e-8 )
        for k in self.kept : ctx.true( tag + ':kept', v.allpars[k] == 0.35, '%g' % v.allpars[k] )
        for k in fi :
            pr = m.getPrior( k ) if k >= 0 else self.errdis.hyperpar[k].prior
            x = v.allpars[k]
            ctx.true( tag + ':prior', pr.lowLimit - 1e-9 <= x <= pr.highLimit + 1e-9, 'parameter %d = %g not in [%g,%g]' % ( k, x, pr.lowLimit, pr.highLimit ) )

    def phantomsok( self, tag ) :
        for n, pl in self.phantoms.phantoms.items() :
            L = [v.logL for v in pl]
            self.ctx.true( tag + ':phantoms sorted', all( a <= b for a, b in zip( L, L[1:] ) ), '%s' % L )
            for v in pl :
                if len( v.allpars ) != n + 1 or v.problem.npars != n : self.ctx.bad( tag + ':phantom in wrong list', '%d parameters in list %d' % ( len( v.allpars ) - 1, n ) )
                if v.logL != self.errdis.logLikelihood( v.problem, v.allpars ) : self.ctx.bad( tag + ':phantom logL' )

def same( a, b ) :
    return all( numpy.array_equal( x, y ) for x, y in zip( a, b ) )

def run_case( case, ctx ) :
    warnings.simplefilter( 'ignore' )
    numpy.seterr( all='ignore' )
    if case['d'] == 'reach' : return reach( case, ctx )
    m = C07.build( case )
    q, off = dyn( m )
    names = ['galilean'] + ( ['chord','step','gibbs','random'] if case['c'][1] == 'D' or case['full'] else [] )
    if q.isDynamic() : names += ['birth','death']
    if q.isModifiable() : names += ['struct']
    full = case['full']
    par = ( 'chord','step','gibbs','random' )
    ops = [( n, l, a ) for n in names for l in ( 'none','mid' ) for a in ( False, True )]
    stat = set()
    base = World( case, ctx )
    spl = case['d'][:3] == 'spl' and not full
    for depth in ( 1, 2, 3 ) if full else ( 1, 2 ) :
        for hist in itertools.product( ops, repeat=depth ) :
            if depth > 1 and ( any( h[2] != hist[0][2] for h in hist ) or ( hist[0][2] and not full ) ) : continue
            if depth > 1 and spl and case['c'][1] != 'EDE' : continue
            if not full and ( spl or hist[0][1] == 'none' ) and hist[0][0] in par : continue
            if not full and depth > 1 and hist[1][1] != 'none' and case['c'][1] != 'D' : continue
            if depth > 1 and any( h[0] in par for h in hist ) : continue
            if depth > 1 and sum( h[0] == 'galilean' for h in hist ) > 1 : continue
            if depth > 1 and not full and hist[0][1] != 'none' : continue
            def run( rng ) : execute( ctx, base.fresh(), hist, rng, stat )
            explore( run, maxdev=2 if full and depth == 1 else 1, maxpoint=( 30 if full else 6 if spl else 10 ) if depth == 1 else ( 24 if full else 4 ), limit=20000 )
    if 'birth' in names :
        if not stat & { 'birth','death' } : ctx.note( 'neither birth nor death ever succeeded' )

def execute( ctx, w, hist, rng, stat ) :
    for k, ( name, ln, append ) in enumerate( hist ) :
        eng = w.engine( name, rng )
        low = -1e300 if ln == 'none' else sorted( v.logL for v in w.walkers )[1]
        cand = [i for i, v in enumerate( w.walkers ) if v.logL >= low]
        kw = cand[k % len( cand )] if ln == 'none' else cand[0]
        before = [w.snap( v ) for v in w.walkers]
        objs = list( w.walkers )
        mv = eng.execute( kw, low, append=append, iteration=k )
        ctx.ev(); ctx.trans()
        tag = '%s.%s%s' % ( name, ln, '.append' if append else '' )
        after = [w.snap( v ) for v in w.walkers]
        for i, b in enumerate( before ) :
            if append or i != kw :
                if not same( b, after[i] ) : ctx.bad( tag + ':another walker changed', 'walker %d of %d, moved %d: %s -> %s' % ( i, len( before ), kw, b, after[i] ) )
        if not append and not same( before[kw], w.snap( objs[kw] ) ) and w.walkers[kw] is objs[kw] and mv == 0 : ctx.bad( tag + ':refused but changed', '%s -> %s' % ( before[kw], after[kw] ) )
        new = w.walkers[len( before ):] if append else [w.walkers[kw]]
        if not append : ctx.true( tag + ':number of walkers', len( after ) == len( before ) )
        if append : ctx.true( tag + ':appended', ( len( new ) > 0 ) == ( mv > 0 ), '%d moves, %d new' % ( mv, len( new ) ) )
        ids = [v.id for v in w.walkers]
        ctx.true( tag + ':identity', len( set( ids ) ) == len( ids ) and ids[:len( before )] == [b[0] for b in before], '%s, were %s' % ( ids, [b[0] for b in before] ) )
        for v in new : w.whole( v, tag )
        if mv > 0 :
            stat.add( name )
            b = before[kw]
            for v in new :
                a = w.snap( v )
                ctx.true( tag + ':below threshold', v.logL >= low, '%g < %g' % ( v.logL, low ) )
                structure( ctx, name, tag, b, a, w )
        w.phantomsok( tag )
        ctx.outcome( ( name, int( mv ), [x[6] for x in after][:4] ) )
    ctx.trace()

def structure( ctx, name, tag, b, a, w ) :
    """ b, a : snapshots before and after a successful move """
    off, nb, na = b[8], b[7], a[7]
    pre, post = b[2][:off], b[2][off+nb:]
    if name in ( 'birth','death' ) :
        d = a[9] - b[9] if b[9] is not None else ( 1 if na > nb else -1 )
        tree = isinstance( dyn( w.walkers[0].problem.model )[0], B.DecisionTreeModel )      # a tree may lose a whole branch
        ctx.true( tag + ':components', ( d < 0 if tree and name == 'death' else d == ( 1 if name == 'birth' else -1 ) ), '%s -> %s' % ( b[6], a[6] ) )
        if b[9] is None : ctx.true( tag + ':size', ( na > nb ) == ( name == 'birth' ), '%d -> %d' % ( nb, na ) )
        ctx.true( tag + ':other parameters', numpy.array_equal( a[2][:off], pre ) and numpy.array_equal( a[2][off+na:], post ), '%s -> %s' % ( b[2], a[2] ) )
    elif name == 'struct' :
        ctx.true( tag + ':parameters', numpy.array_equal( a[2], b[2] ), '%s -> %s' % ( b[2], a[2] ) )
    else :
        ctx.true( tag + ':structure', a[6] == b[6], '%s -> %s' % ( b[6], a[6] ) )
