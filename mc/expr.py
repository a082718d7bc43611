"""
Expressions of models: all binary trees over a small alphabet of leaf models and the
operators + - * / |, applied as binary operator (new compound) or in place (op=).

The reference value of an expression is the value of the tree: op( left(x), right(x) ), and
right( left(x) ) for |.   References accept complex input, for complex-step derivatives.
"""
import itertools, numpy, operator
import BayesicFitting as B

OPS = ['+','-','*','/','|']
BIN = { '+' : operator.add, '-' : operator.sub, '*' : operator.mul, '/' : operator.truediv, '|' : operator.or_ }
INP = { '+' : operator.iadd, '-' : operator.isub, '*' : operator.imul, '/' : operator.itruediv, '|' : operator.ior }
MTH = { '+' : 'addModel', '-' : 'subtractModel', '*' : 'multiplyModel', '/' : 'divideModel', '|' : 'pipeModel' }

# leaf : make, reference( x, p ), parameters, 'dx' reference not needed
def mk( f ) : return f
LEAVES = {
  'P' : ( lambda : B.PolynomialModel( 1 ), lambda x, p : p[0] + p[1] * x, [1.9,0.45] ),
  'G' : ( lambda : B.GaussModel(), lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x - p[1] ) / p[2] ) ** 2 ), [1.2,0.15,1.3] ),
  'E' : ( lambda : B.ExpModel(), lambda x, p : p[0] * numpy.exp( p[1] * x ), [0.8,-0.35] ),
  'F' : ( lambda : B.GaussModel( fixed={1:0.25} ), lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x - 0.25 ) / p[1] ) ** 2 ), [1.4,1.1] ),
  'L' : ( lambda : B.LogisticModel(), lambda x, p : p[0] / ( 1 + numpy.exp( ( p[1] - x ) / p[2] ) ), [1.6,-0.2,0.9] ),
  'M' : ( lambda : B.PolynomialModel( 1, fixed={0:B.ExpModel()} ), lambda x, p : p[1] * numpy.exp( p[2] * x ) + p[0] * x, [0.3,1.7,0.2] ),
  'D' : ( lambda : B.GaussModel( fixed={2:B.PolynomialModel( 0 ) + B.ExpModel(), 0:B.PolynomialModel( 1 )} ),
          lambda x, p : ( p[4] + p[5] * x ) * numpy.exp( -0.5 * ( ( x - p[0] ) / ( p[1] + p[2] * numpy.exp( p[3] * x ) ) ) ** 2 ), [0.15,0.9,0.4,0.3,1.2,0.25] ),
  'H' : ( lambda : B.LogisticModel( fixed={0:1.4,2:( B.ExpModel() | B.PolynomialModel( 1 ) ),1:B.PolynomialModel( 0, fixed={0:B.ExpModel()} )} ),
          lambda x, p : 1.4 / ( 1 + numpy.exp( ( p[4] * numpy.exp( p[5] * x ) - x ) / ( p[2] + p[3] * p[0] * numpy.exp( p[1] * x ) ) ) ), [0.6,0.4,0.8,0.3,0.2,0.35] ),
  'C' : ( lambda : B.ConstantModel( values=[1.7] ), lambda x, p : 1.7 + 0 * x, [] ),
}
# 2 dimensional leaves, and how they mix
LEAVES2 = {
  'S' : ( lambda : B.PolySurfaceModel( 1 ), lambda x, p : p[0] + p[1] * x[:,0] + p[2] * x[:,1], [1.9,0.3,-0.2] ),
  'K' : ( lambda : B.Kernel2dModel(), lambda x, p : p[0] * numpy.exp( -0.5 * ( ( x[:,0] - p[1] ) ** 2 + ( x[:,1] - p[2] ) ** 2 ) / p[3]**2 ), [1.3,0.1,0.2,1.4] ),
  'P' : LEAVES['P'], 'G' : LEAVES['G'], 'E' : LEAVES['E'],
}

def shapes( n ) :
    """ all binary trees with n leaves; leaf = None """
    if n == 1 : return [None]
    out = []
    for k in range( 1, n ) :
        for l in shapes( k ) :
            for r in shapes( n - k ) :
                out += [( l, r )]
    return out

def nleaf( s ) :
    return 1 if s is None else nleaf( s[0] ) + nleaf( s[1] )

def tree( shape, ops, leaves ) :
    """ fill shape with ops and leaf letters; ops in order of in-order traversal """
    ops = list( ops )
    leaves = list( leaves )
    def fill( s ) :
        if s is None : return leaves.pop( 0 )
        l = fill( s[0] )
        o = ops.pop( 0 )
        r = fill( s[1] )
        return ( o, l, r )
    return fill( shape )

def tstr( t ) :
    return t if isinstance( t, str ) else '(%s%s%s)' % ( tstr( t[1] ), t[0], tstr( t[2] ) )

def leavesof( t ) :
    return [t] if isinstance( t, str ) else leavesof( t[1] ) + leavesof( t[2] )

def scale( k ) :
    """ parameters of k-th leaf are slightly different from those of other leaves of same kind """
    return 1.0 + 0.07 * k

def leafpars( t, table=LEAVES ) :
    out = []
    for k, l in enumerate( leavesof( t ) ) :
        out += [[v * scale( k ) for v in table[l][2]]]
    return out

def build( t, how='bin', table=LEAVES, bits=None ) :
    """ real model of tree t.  how: bin | inp | mth ; or mixed per node through bits """
    cnt = [0]
    nod = [0]
    def b( t ) :
        if isinstance( t, str ) :
            m = table[t][0]()
            m.parameters = [v * scale( cnt[0] ) for v in table[t][2]]
            cnt[0] += 1
            return m
        l = b( t[1] )
        r = b( t[2] )
        h = how if bits is None else bits[nod[0]]
        nod[0] += 1
        if h == 'bin' : return BIN[t[0]]( l, r )
        if h == 'inp' : return INP[t[0]]( l, r )
        getattr( l, MTH[t[0]] )( r )
        return l
    return b( t )

def ref( t, x, pars, table=LEAVES ) :
    """ reference value; pars list of lists (per leaf) """
    pars = list( pars )
    def e( t, x ) :
        if isinstance( t, str ) :
            return table[t][1]( x, pars.pop( 0 ) )
        l = e( t[1], x )
        if t[0] == '|' :
            return e( t[2], l )
        r = e( t[2], x )
        return BIN[t[0]]( l, r ) if t[0] != '|' else None
    return e( t, x )

def flat( pars ) :
    return numpy.array( [v for p in pars for v in p], dtype=float )

def split( vec, pars ) :
    out = []
    k = 0
    for p in pars :
        out += [list( vec[k:k+len( p )] )]
        k += len( p )
    return out

def refpart( t, x, pars, table=LEAVES ) :
    """ d ref / d p by complex step """
    v = flat( pars ).astype( complex )
    out = []
    for k in range( len( v ) ) :
        w = v.copy()
        w[k] += 1e-30j
        out += [numpy.imag( ref( t, x + 0j * x, split( w, pars ), table ) + 0j * x.reshape( len( x ), -1 )[:,0] ) / 1e-30]
    return numpy.array( out ).T.reshape( len( x ), -1 )

def refderiv( t, x, pars, table=LEAVES ) :
    if x.ndim == 1 :
        return numpy.imag( ref( t, x + 1e-30j, pars, table ) + 0j * x ) / 1e-30
    out = []
    for i in range( x.shape[1] ) :
        xx = x.astype( complex )
        xx[:,i] += 1e-30j
        out += [numpy.imag( ref( t, xx, pars, table ) ) / 1e-30]
    return numpy.array( out ).T

def trees2( n ) :
    """ trees over 2-d leaves S,K with 1-d models only at the right of a pipe """
    # enumerate typed: type of a tree = input dimension
    def gen( n, dim ) :
        if n == 1 :
            return ['S','K'] if dim == 2 else ['P','G']
        out = []
        for k in range( 1, n ) :
            for o in OPS :
                for l in gen( k, dim ) :
                    for r in gen( n - k, dim if o != '|' else 1 ) :
                        out += [( o, l, r )]
        return out
    return gen( n, 2 )
