"""
Registry of the properties : source of /verif/properties.jsonl and /verif/MANIFEST.json
(regenerate with : python3 /verif/mc/registry.py)
"""
import json, os

S = 'BayesicFitting/source/'
P = []

def prop( id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None ) :
    P.append( dict( id=id, title=title, statement=statement, over=over, text=text, why=why,
              files=[f if '/' in f else S + f for f in files],
              mech=[{ 'name' : n, 'where' : w } for n, w in mech], technique=technique, level=level, note=note,
              state=state, observe=observe ) )

prop( 'C01', 'A compound model evaluates as the expression that built it',
 'A model built from other models with +, -, *, / and | (binary or in-place operators, the named append methods, and brackets at any depth, also with '
 'multi-dimensional and piped multi-output models) returns for every input and parameter vector the value of that algebraic expression of the '
 'parts, each part taking its own slice of the parameters in order of appearance. Building a compound with binary operators leaves the operands as '
 'they were, and a model object can be used in several compounds.',
 ['programs','inputs'], 'every expression tree over the model operators, every input and parameter vector',
 'The tests evaluate a handful of hand-written sums and products; the left-to-right chain with operator codes, implicit brackets and parameter offsets '
 'can be wrong for one nesting/operator combination only.',
 ['Model.py','BracketModel.py','FixedModel.py','BaseModel.py'],
 [( 'operator overloading and chain building', 'Model.py: __add__ .. __ior__, addModel, appendModel' ),
  ( 'evaluation of the chain', 'Model.py: result, _operate' ), ( 'brackets', 'Model.py: Brackets; BracketModel.py' )],
 'bounded exhaustive enumeration of all expression trees (programs) run on the real code against a reference evaluator', 'exploration',
 'complete for all trees up to 4 (thorough 5) leaves over 5 operators and the leaf alphabet; fixed evaluation points' )

prop( 'C02', 'Parameters, names, priors and limits of a compound follow its parts',
 'In every compound model the number of parameters, their order, names and values, and the prior and limits that belong to each parameter index are those '
 'of the parts concatenated in order of appearance, brackets included. Setting a prior or limits (two-sided, one-sided, single or list) by '
 'parameter index affects that parameter and no other; unit-to-domain mapping of a parameter vector maps each element with its own prior.',
 ['programs','configurations'], 'every expression tree, every parameter index, priors set before or after composing, limits in all documented forms',
 'Tests set priors on a few flat compounds; the index bookkeeping over nested brackets and lists shorter than the number of parameters is combinatorial.',
 ['Model.py','BaseModel.py','FixedModel.py','BracketModel.py'],
 [( 'prior lookup by index', 'Model.py: getPrior, setPrior, nextPrior' ), ( 'limits', 'Model.py: setLimits, getLimits, hasLimits' ),
  ( 'unit/domain vectors', 'Model.py: unit2Domain, domain2Unit' )],
 'bounded exhaustive enumeration of compound models and of all parameter indices against a list-concatenation reference', 'exploration',
 'complete for all trees up to 3 (thorough 4) leaves, one set of priors per leaf' )

prop( 'C03', 'Partial derivatives to the parameters are those of the result',
 'For every model, simple or compound (all operators, brackets, pipes, several inputs or outputs), with or without parameters fixed to a constant or '
 'replaced by another model, the matrix of partial derivatives equals the derivative of the model result to each of its free parameters, in the '
 'order of the parameters. This holds for every parameter vector in the domain where the model is differentiable.',
 ['inputs','programs','configurations'], 'every model class, every subset of fixed parameters, every expression tree, every input',
 'Tests compare a few models at a few points with an approximate numeric derivative; chain rule through operators, pipes and fixed models is '
 'combinatorial, and errors show for one operator order or one parameter subset only.',
 ['Model.py','FixedModel.py','BaseModel.py','NonLinearModel.py','LinearModel.py','GaussModel.py','SineModel.py','RepeatingModel.py','CombiModel.py'],
 [( 'chain rule over the chain of models', 'Model.py: partial, selectPipe' ), ( 'fixed parameters in partials', 'FixedModel.py: partial, expand' ),
  ( 'analytic partials per model', S + '*Model.py: basePartial' )],
 'bounded exhaustive enumeration of models, fixed-parameter subsets and expression trees against complex-step derivatives of reference formulas', 'exploration',
 'complete over the catalogue x subsets x trees; continuous inputs at fixed points' )

prop( 'C04', 'Derivatives to the independent variable are those of the result',
 'For every model, simple or compound (all operators, brackets, pipes), with or without fixed parameters or parameters replaced by a model, the derivative to the '
 'independent variable equals the derivative of the result to the input (for several inputs: to each of them). Models without an analytic derivative '
 'give a numeric approximation of the same.',
 ['inputs','programs','configurations'], 'every model class, every subset of fixed parameters, every expression tree, every input',
 'Tests check few models at few points; product, quotient and pipe rules in long chains with brackets are only exercised for the shapes someone wrote down.',
 ['Model.py','FixedModel.py','BaseModel.py','EtalonDriftModel.py','SplinesModel.py','SineSplineModel.py','SineSplineDriftModel.py'],
 [( 'chain rule to x', 'Model.py: derivative' ), ( 'analytic derivative per model', S + '*Model.py: baseDerivative' ), ( 'numeric fallback', 'FixedModel.py: numDerivative' )],
 'bounded exhaustive enumeration of models, fixed-parameter subsets and expression trees against complex-step or extrapolated differences', 'exploration',
 'complete over the catalogue x subsets x trees; continuous inputs at fixed points; points where the difference quotient does not converge are left out' )

prop( 'C05', 'A model computes its documented formula; fixed parameters substitute',
 'Every model class returns the value of its documented formula at every input and parameter vector, point by point: a point gets the same value whatever '
 'other points are passed along, in whichever order or container (array, list, integers). A model with parameters fixed to constants, or replaced by another model, '
 'equals the full model evaluated with those values (or with the values of that model at the input) substituted.',
 ['inputs','configurations'], 'every model class, every subset of fixed parameters by positive or negative index, every replacing model, every input array',
 'Tests evaluate each model at one parameter set, with one or no fixed parameter.',
 ['FixedModel.py','Model.py','GaussModel.py','SineModel.py','PolynomialModel.py','VoigtModel.py','SplinesModel.py','BSplinesModel.py','KernelModel.py','HarmonicModel.py'],
 [( 'substitution of fixed parameters', 'FixedModel.py: expand, result' ), ( 'formula per model', S + '*Model.py: baseResult' )],
 'bounded exhaustive enumeration of model classes x fixed subsets x substituting models x input orders against independently written formulas', 'exploration',
 'complete over the catalogue and its fixed subsets; continuous inputs at fixed points' )

prop( 'C06', 'A copy of a model is equal to and independent of the original',
 'A copy of any model, simple or compound, has the same parameters, names, priors, limits, fixed parameters, units and results as the original. No sequence of '
 'changes to the copy (parameters, priors, limits, added models, growing or varying) is visible in the original, nor the other way around.',
 ['histories','configurations'], 'every model class and compound, every sequence of changes to original and copy up to the depth',
 'Tests copy some models and compare once; sharing shows only when one of the two is changed afterwards, via one specific attribute.',
 ['Model.py','FixedModel.py','BaseModel.py','Dynamic.py','Modifiable.py','CombiModel.py','RepeatingModel.py','SplinesDynamicModel.py','DecisionTreeModel.py','Prior.py'],
 [( 'copy constructors', 'Model.py, FixedModel.py, BaseModel.py: __init__(copy=)' ), ( 'copying a chain', 'Model.py: isolateModel' ), ( 'copy per model', S + '*Model.py: copy' )],
 'bounded exhaustive enumeration of operation histories on an (original, copy) pair, compared with separately built objects', 'model_checking',
 'all histories of depth 2 (thorough 3) over the operation alphabet for each catalogue model and compound' )

prop( 'C09', 'Prior mapping, inverse and density agree; circular and bound priors',
 'For every prior and every combination of center, scale, limits and circularity, the map from the unit interval to the domain and its inverse are '
 'monotonic inverses inside the limits, and the density is the derivative of that map, normalised to 1 over the allowed domain (for a properly bounded prior), '
 'zero outside the limits. Log and partial-log densities agree with the density, and circular priors map equivalent values to the same point.',
 ['inputs','configurations'], 'every prior class x every configuration of center/scale/limits/circular x a grid over domain and unit interval',
 'Tests check a prior class at its default settings and few points; one-sided limits, limits off-center and circular variants multiply.',
 ['Prior.py','UniformPrior.py','JeffreysPrior.py','ExponentialPrior.py','LaplacePrior.py','CauchyPrior.py','GaussPrior.py','CircularUniformPrior.py'],
 [( 'limited mapping', 'Prior.py: limitedUnit2Domain, limitedDomain2Unit, limitedResult' ), ( 'circular mapping', 'Prior.py: circularUnit2Domain, circularDomain2Unit' ),
  ( 'per prior', S + '*Prior.py: unit2Domain, domain2Unit, result, partialLog' )],
 'bounded exhaustive enumeration of prior configurations against closed-form truncated distributions', 'exploration',
 'complete over the configuration lattice; unit interval and domain on fixed grids' )

prop( 'C10', 'A prior stays consistent under any history of changes and copies',
 'After any sequence of setting or unsetting limits, changing center or scale, and copying, a prior is indistinguishable from a prior freshly constructed '
 'with the resulting settings: same limits, mapping, inverse, density, and integral. Copies are independent of the original.',
 ['histories'], 'all histories of set/unset limits (two- and one-sided), attribute changes, and copies, for every prior class',
 'Tests do one change on one prior; the cached bounds and masked methods go stale only for particular orders of operations.',
 ['Prior.py','UniformPrior.py','JeffreysPrior.py','ExponentialPrior.py','LaplacePrior.py','CauchyPrior.py','GaussPrior.py','CircularUniformPrior.py'],
 [( 'limits and cached bounds', 'Prior.py: setLimits, unsetLimits, setAttributes, setPriorAttributes' ), ( 'copies', S + '*Prior.py: copy, __init__(copy=)' )],
 'explicit-state breadth-first search over operation histories of the real prior objects with a reference model in lock-step', 'model_checking',
 'all histories of depth 3 (thorough 4) over the operation alphabet, for every prior class' )

exec( open( os.path.join( os.path.dirname( os.path.abspath( __file__ ) ), 'registry2.py' ) ).read() )

NOT = []        # ( id, reason )

def main() :
    here = os.path.dirname( os.path.abspath( __file__ ) )
    verif = os.path.dirname( here )
    checks, na, lines = [], [], []
    for p in sorted( P, key=lambda p : p['id'] ) :
        d = { 'id' : p['id'], 'title' : p['title'], 'statement' : p['statement'], 'quantifier' : { 'over' : p['over'], 'text' : p['text'] },
              'why_tests_cant' : p['why'], 'anchors' : { 'files' : p['files'], 'mechanism' : p['mech'] } }
        assert len( p['title'] ) <= 80, ( p['id'], len( p['title'] ) )
        for f in p['files'] : assert os.path.exists( '/repo/' + f ), f
        lines += [json.dumps( d )]
        if os.path.exists( os.path.join( here, 'props', p['id'] + '.py' ) ) :
            checks += [{ 'property' : p['id'], 'quick_cmd' : 'bash /verif/run.sh %s' % p['id'],
                         'thorough_cmd' : 'bash /verif/run.sh %s --thorough' % p['id'],
                         'evidence_file' : 'evidence/%s.json' % p['id'],
                         'technique' : p['technique'], 'level' : p['level'], 'level_note' : p['note'] }]
        else :
            na += [{ 'property' : p['id'], 'reason' : 'check not built yet' }]
    for i, r in NOT : na += [{ 'property' : i, 'reason' : r }]
    with open( os.path.join( verif, 'properties.jsonl' ), 'w' ) as f : f.write( '\n'.join( lines ) + '\n' )
    with open( os.path.join( verif, 'MANIFEST.json' ), 'w' ) as f :
        json.dump( { 'version' : 1, 'setup_cmd' : 'true', 'checks' : checks, 'not_applicable' : na }, f, indent=1 )
    print( len( lines ), 'properties', len( checks ), 'checks' )

if __name__ == '__main__' : main()
