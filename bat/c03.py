from bat import c02
from bat.util import *
RULE = c02.RULE + '; here the objective'
cases = c02.cases
def run(c):
    mpc = c02.setup(c)
    for ox, op, (o, g), (ro, rows) in c02.points(c, mpc, 3):
        close(o, ro, 'objective' + c02.info(c))
