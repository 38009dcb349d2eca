"""C11: fusion preconditions are checked before rewriting."""
from sa.sem import ValueBench
from sa.valuecheck import judge_scenes
from sa.scenes_fuse import fill

TITLE = 'fusion preconditions are checked before rewriting'
EXPLANATION = ('Abstract interpretation of every fusion on small graphs of known shape whose data is symbolic: each fusable pattern next to every state that forbids the fusion '
               '(pending activation, computed instead of constant operand, other operand position, other axis, padding, stride, shape or type, other readers, shared parameters); '
               'the function of every model output is compared element by element before and after.')


def run(ctx):
    B = ValueBench(ctx)
    judge_scenes(ctx, B, fill(), 400)
