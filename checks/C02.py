"""C02: a source operator whose result depends on run-time data is never dropped silently."""
from sa.interp import Cls
from checks import C03

TITLE = 'no source operator is silently dropped'
EXPLANATION = ('Abstract interpretation of the converter class of each source operator on one node with symbolic tensors (run-time, constant and scalar arguments; ranks, types and '
               'options enumerated). Whenever the converter returns normally, every result of the node whose elements depend on run-time data must be the output of a target operator '
               '(or an alias of a known tensor), and be computable from the inputs of the node through the operators added.')


def depends(c):
    return C03.tracked(c[1])


def run(ctx):
    ctx.rule('produced', 'every result that depends on run-time data is produced by a target operator whenever the converter returns normally', 100)
    ctx.rule('kinds', 'source operators with at least one case that returns normally', 30)
    cs, rs = C03.results(ctx)
    for c, (v, msg) in zip(cs, rs):
        n = C03.name_of(c)
        if not depends(c):
            continue
        if v == 'dropped':
            ctx.ob('produced', n)
            ctx.finding('produced', c[0], C03.site(ctx, c[0]), '%s: %s' % (n, msg))
        elif v == 'undecided':
            ctx.skip(n, msg)
        elif v != 'stopped':
            ctx.ob('produced', n)
            ctx.ob('kinds', c[0])
