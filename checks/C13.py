"""C13: layout rewrites insert inverse permutations."""
from sa.framework import parallel
from sa.sem import ValueBench
from sa.valuecheck import judge_scenes
from sa.scenes import SCENES

TITLE = 'layout rewrites insert inverse permutations'
EXPLANATION = ('Abstract interpretation of the lowering of convolutions and of every pass that inserts, moves, merges or removes transposes and reshapes, on small '
               'graphs of known shape whose data is symbolic; the function of every model output is compared element by element before and after.')


def run(ctx):
    B = ValueBench(ctx)
    judge_scenes(ctx, B, [x for x in SCENES if x[1] == 'layout'], 500)
