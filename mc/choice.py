"""
Controlled random number generator.

ChoiceRNG stands in for numpy.random.RandomState.  Each draw is a choice point: option 0 is a value of a
fixed low-discrepancy stream ( so that loops which wait for a lucky draw end ), the other options are
extreme or otherwise interesting values.  explore() enumerates all executions with at most maxdev
deviations from option 0 ( within the first maxpoint choice points ), depth first.
"""
import itertools, numpy
from scipy.special import ndtri

PHI = 0.6180339887498949
U = [1e-6, 0.5, 1 - 1e-6]           # alternatives for one uniform draw

class TooLong( Exception ) : pass

class ChoiceRNG( object ) :
    def __init__( self, prefix=(), start=0.5, ualt=U, full=6, limit=200000 ) :
        """ full : randint with up to this number of values offers all of them """
        self.prefix = list( prefix )
        self.trace = []
        self.u = start
        self.ualt = list( ualt )
        self.full = full
        self.limit = limit
        self.ndraw = 0

    def _next( self ) :
        self.u = ( self.u + PHI ) % 1.0
        self.ndraw += 1
        if self.ndraw > self.limit : raise TooLong( 'more than %d random draws' % self.limit )
        return min( max( self.u, 1e-9 ), 1 - 1e-9 )

    def _choose( self, n ) :
        i = len( self.trace )
        c = self.prefix[i] if i < len( self.prefix ) else 0
        if c >= n : c = 0
        self.trace += [( n, c )]
        return c

    def _array( self, shape, f0, alts ) :
        """ f0() default draw; alts : alternative values """
        if shape == () or shape is None :
            d = f0()
            c = self._choose( 1 + len( alts ) )
            return d if c == 0 else alts[c-1]
        a = numpy.array( [f0() for k in range( int( numpy.prod( shape ) ) )], dtype=float ).reshape( shape )
        n = a.size
        if n == 0 : return a
        # alternatives : all elements at one extreme; first element at an extreme; last element at an extreme
        opts = [( 'all', v ) for v in alts]
        if n > 1 : opts += [( 'first', v ) for v in ( alts[0], alts[-1] )] + [( 'last', v ) for v in ( alts[0], alts[-1] )]
        c = self._choose( 1 + len( opts ) )
        if c > 0 :
            w, v = opts[c-1]
            if w == 'all' : a[...] = v
            elif w == 'first' : a.flat[0] = v
            else : a.flat[-1] = v
        return a

    # ---- RandomState interface ------------------------------------------------
    def rand( self, *shape ) :
        return self._array( shape, self._next, self.ualt )
    def random_sample( self, size=None ) :
        return self._array( () if size is None else ( ( size, ) if numpy.isscalar( size ) else tuple( size ) ), self._next, self.ualt )
    random = random_sample
    ranf = random_sample
    sample = random_sample
    def uniform( self, low=0.0, high=1.0, size=None ) :
        return low + ( high - low ) * self.random_sample( size )
    def randn( self, *shape ) :
        return self._array( shape, lambda : float( ndtri( self._next() ) ), [-3.5, 0.0, 3.5] )
    def standard_normal( self, size=None ) :
        return self.randn( *( () if size is None else ( ( size, ) if numpy.isscalar( size ) else tuple( size ) ) ) )
    def normal( self, loc=0.0, scale=1.0, size=None ) :
        return loc + scale * self.standard_normal( size )
    def exponential( self, scale=1.0, size=None ) :
        return -scale * numpy.log( self.random_sample( size ) )
    def randint( self, low, high=None, size=None, dtype=int ) :
        if high is None : low, high = 0, low
        low, high = int( low ), int( high )
        n = high - low
        if n <= 0 : raise ValueError( 'low >= high' )
        def one() :
            d = low + int( self._next() * n )
            alts = [v for v in ( range( low, high ) if n <= self.full else ( low, high - 1, low + n // 2 ) ) if v != d]
            c = self._choose( 1 + len( alts ) )
            return d if c == 0 else alts[c-1]
        if size is None : return one()
        return numpy.array( [one() for k in range( int( numpy.prod( size ) ) )], dtype=int ).reshape( size )
    def geometric( self, p, size=None ) :
        def one() :
            d = int( numpy.ceil( numpy.log1p( -self._next() ) / numpy.log1p( -p ) ) ) if p < 1 else 1
            d = max( d, 1 )
            alts = [v for v in ( 1, 2, 3, 5, 9 ) if v != d]
            c = self._choose( 1 + len( alts ) )
            return d if c == 0 else alts[c-1]
        if size is None : return one()
        return numpy.array( [one() for k in range( int( numpy.prod( size ) ) )], dtype=int ).reshape( size )
    def permutation( self, x ) :
        a = numpy.arange( x ) if numpy.isscalar( x ) else numpy.array( x )
        n = len( a )
        d = numpy.argsort( [self._next() for k in range( n )], kind='stable' )
        opts = []
        if 1 < n <= 3 : opts = [numpy.array( q ) for q in itertools.permutations( range( n ) )]
        elif n > 3 : opts = [numpy.arange( n ), numpy.arange( n )[::-1], numpy.roll( numpy.arange( n ), 1 )]
        c = self._choose( 1 + len( opts ) )
        return a[d if c == 0 else opts[c-1]]
    def shuffle( self, a ) :
        a[:] = a[self.permutation( len( a ) )]
    def choice( self, a, size=None, replace=True, p=None ) :
        n = a if numpy.isscalar( a ) else len( a )
        k = self.randint( 0, n, size=size )
        return k if numpy.isscalar( a ) else numpy.asarray( a )[k]
    def seed( self, *a ) : pass
    def get_state( self, *a ) : return ( 'choice', self.u )
    def set_state( self, s ) : pass


def explore( run, maxdev=1, maxpoint=40, maxexec=100000, **kw ) :
    """
    run( rng ) executes once; called for every choice sequence with at most maxdev deviations in the first
    maxpoint points.  Returns the number of executions ( complete unless maxexec is hit : then raises ).
    """
    stack = [()]
    n = 0
    while stack :
        prefix = stack.pop()
        rng = ChoiceRNG( prefix, **kw )
        run( rng )
        n += 1
        if n > maxexec : raise RuntimeError( 'bound on executions exceeded' )
        dev = sum( 1 for c in prefix if c )
        if dev >= maxdev : continue
        for i in range( len( prefix ), min( len( rng.trace ), maxpoint ) ) :
            for c in range( rng.trace[i][0] - 1, 0, -1 ) :
                stack.append( tuple( t[1] for t in rng.trace[:i] ) + ( c, ) )
    return n
