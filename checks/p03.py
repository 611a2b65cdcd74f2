"""The limiter acts on every stage after the first and on every completed step."""
from . import p02
from sa.model import *

RULE = ('integrate() is interpreted with the residual and the limiter as uninterpreted operators on '
        'the interior coefficients; in the first iteration and in an iteration from an arbitrary loop '
        'state every stage after the first must be evaluated at the limited stage state, the step must '
        'end with the limited update, and what is handed to the output routine is that limited state.')


def run(ctx):
    p02.run(ctx, True)
    ctx.rules[:] = [RULE]
