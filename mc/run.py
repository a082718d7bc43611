import sys, os, importlib
here = os.path.dirname( os.path.abspath( __file__ ) )
sys.path.insert( 0, here )
sys.path.insert( 0, os.path.join( here, 'props' ) )
if '/repo' not in sys.path : sys.path.insert( 0, '/repo' )
import warnings
warnings.simplefilter( 'ignore' )
import core
prop = sys.argv[1]
import BayesicFitting
assert BayesicFitting.__file__.startswith( '/repo/' ), BayesicFitting.__file__
mod = importlib.import_module( prop )
sys.exit( core.main( prop, mod, sys.argv[2:] ) )
