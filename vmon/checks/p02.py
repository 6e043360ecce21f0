"""
optimize() preserves size, channel count and channel names.
"""
from vmon import imggen, imgref, util
from vmon.checks import p01

ID = 'P02'
TITLE = 'Optimizing preserves the size and channels of the image'
RULE = ('a case counts when the metadata of the optimized tree and of its rendered data were compared to the '
        'unoptimized tree and to the reference model; distinct = distinct nesting of operations')
QUICK, THOROUGH = 2500, 60000
REQUIRE = {'trees': 2000, 'named': 800, 'changed_by_optimize': 800}
ASSUMPTIONS = []

CFGS = p01.CFGS + [
    {'p_kw': 0.1, 'min_size': 1, 'nops': [3, 8]},
    {'p_kw': 0.1, 'max_size': 900, 'nops': [2, 6], 'weights': [3, 1, 4, 3, 2, 2, 1, 3, 1, 1]},
]


def gen(R, i, tier):
    return {'prog': imggen.rand_prog(R, CFGS[i % len(CFGS)])}


def names(node):
    ch = node.channels
    return None if ch is None else list(ch.normalize().parsed)


def run(case, ctx):
    prog = case['prog']
    m = imgref.model(prog)
    node = imgref.build(prog, imgref.Env(ctx.scratch))
    opt = node.optimize()
    ctx.count('trees')
    ctx.count('changed_by_optimize', util.structure(opt) != util.structure(node))
    for which, n in (('tree', node), ('optimized tree', opt)):
        ctx.expect(tuple(n.shape) == m.shape, f'{which} has shape {n.shape}, expected {m.shape}')
        ctx.expect(n.num_channels == m.shape[2], f'{which} has num_channels {n.num_channels}, expected {m.shape[2]}')
        ctx.expect(tuple(n.dsize) == tuple(m.dsize), f'{which} has dsize {n.dsize}, expected {m.dsize}')
        if m.names is not None:
            ctx.expect(names(n) == m.names, f'{which} has channels {names(n)}, expected {m.names}')
    if m.names is not None:
        ctx.count('named')
    # names that were unknown because of unnamed siblings may become known
    ctx.expect(names(node) in (None, names(opt)), f'channels {names(node)} became {names(opt)}')
    f = util.plain(opt.finalize(optimize=False))
    ctx.expect(f.shape == m.shape, f'optimized data has shape {f.shape}, expected {m.shape}')
    if util.nops(prog):
        ctx.distinct(util.opnames(prog))
