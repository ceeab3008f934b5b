from .mpcnlp import *
CONTRACTS = [('MPC._prepare_nlp, objective (%s)' % label(fl), c03(fl), refuter) for fl in combos('open_loop', 'rterm', 'single')]
from . import objective, createnlp
CONTRACTS += objective.C03 + createnlp.NLP['mpc']
BOUNDED = objective.BOUNDED_OBJ
