from .mpcnlp import *
CONTRACTS = [('MPC._prepare_nlp, nonlinear constraints (%s)' % label(fl), c04(fl), refuter) for fl in combos('open_loop', 'nlcp', 'single')]
from .mhenlp import c04_mhe, refuter_mhe
CONTRACTS += [('MHE constraints: ' + label(f), c04_mhe(f), refuter_mhe) for f in combos('nlcp', 'single')]
from . import nlcons
CONTRACTS += nlcons.CONTRACTS
BOUNDED = {'Optimizer._setup_nl_cons': 'bounded in the number of named constraints (at most three, every mix of soft and hard ones); all sizes, expressions, bounds, penalties and maximum violations are symbolic'}
from . import createnlp
CONTRACTS += createnlp.NLP['mpc'] + createnlp.NLP['mhe']
