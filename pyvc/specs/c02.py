from .mpcnlp import *
CONTRACTS = [('MPC._prepare_nlp, equality constraints (%s)' % label(fl), c02(fl), refuter) for fl in combos('open_loop', 'nlcp', 'single')]
from . import createnlp
CONTRACTS += createnlp.NLP['mpc']
