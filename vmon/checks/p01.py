"""
finalize renders what the operations say, optimized or not.
"""
from vmon import imggen, imgref, util

ID = 'P01'
TITLE = 'Finalize renders every operation tree at the right place, optimized or not'
RULE = ('a case counts when its rendered pixels were compared to the absolute position oracle both with and '
        'without optimization; distinct = distinct nesting of operations and leaf types')
QUICK, THOROUGH = 2500, 60000
REQUIRE = {'px_inside': 500000, 'px_outside': 100000, 'renders': 1500}
ASSUMPTIONS = ['OpenCV/kwimage resampling is trusted to 1/8 px per stage',
               'pixels in a band around the border of each stage are not judged']

CFGS = [
    {'p_kw': 0.0},
    {'p_kw': 0.3},
    {'p_kw': 0.3, 'nops': [3, 9], 'nops_outer': [2, 7], 'p_unnamed': 0.5},
    {'p_kw': 0.3, 'chan_dups': True, 'p_nanpart': 0.6, 'p_missing': 0.6, 'p_unnamed': 0.3},
    {'p_kw': 0.2, 'weights': [2, 1, 2, 1, 1, 3, 2, 4, 2, 1]},
    {'p_kw': 0.1, 'kinds': ['load'], 'weights': [4, 1, 4, 3, 1, 0.5, 2, 2, 1, 1]},
    {'p_kw': 0.1, 'kinds': ['load'], 'max_size': 600},
    {'p_kw': 0.1, 'weights': [6, 1, 5, 3, 2, 0, 0, 0, 0, 0], 'nops': [2, 5]},
    {'p_kw': 0.1, 'leaf_range': [300, 1100], 'max_size': 1400, 'weights': [4, 1, 4, 3, 1, 0.5, 2, 3, 1, 1]},
    {'p_kw': 0.1, 'nchan': [7, 40], 'max_chans': 90, 'leaf_range': [15, 40], 'chan_dups': True},
    {'p_kw': 0.1, 'p_share': .9, 'weights': [4, 1, 5, 3, 2, 1, 1, 3, 1, 1]},
]


def gen(R, i, tier):
    cfg = CFGS[i % len(CFGS)]
    return {'prog': imggen.rand_prog(R, cfg)}


def run(case, ctx):
    prog = case['prog']
    m = imgref.model(prog)
    node = imgref.build(prog, imgref.Env(ctx.scratch))
    for mode in (False, True):
        f = node.finalize(optimize=mode)
        errs, st = imgref.check_final(m, f)
        for k in ('inside', 'deep', 'outside', 'mixed'):
            ctx.count('px_' + k, st[k])
        ctx.count('renders')
        for e in errs:
            ctx.err(f'optimize={mode}: {e}')
    if util.nops(prog):
        ctx.distinct(util.opnames(prog))
