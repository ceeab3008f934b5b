from .mhenlp import *
CONTRACTS = [('MHE problem: ' + label(f), c08_rows(f), refuter_mhe) for f in combos('single')] + [('MHE objective: ' + label(f), c08_obj(f), refuter_mhe) for f in combos('single')]
from . import objective, createnlp
CONTRACTS += objective.C08 + createnlp.NLP['mhe']
BOUNDED = objective.BOUNDED_MHE
