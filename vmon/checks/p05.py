"""
The metadata of every node of a tree describes the data it yields.
"""
from vmon import imggen, imgref, util
from vmon.checks import p02

ID = 'P05'
TITLE = 'Metadata known before rendering matches the rendered data for every node'
RULE = ('every node of the tree and of its optimized version is rendered by itself and its shape compared with the '
        'metadata; distinct = distinct (node type, child types, shape parity)')
QUICK, THOROUGH = 1200, 30000
REQUIRE = {'nodes': 5000}
ASSUMPTIONS = []


def gen(R, i, tier):
    case = {'prog': imggen.rand_prog(R, p02.CFGS[i % len(p02.CFGS)])}
    if i % 5 == 0:
        # degenerate sizes
        case['tail'] = []
        for _ in range(R.randint(1, 3)):
            case['tail'].append(R.choice([
                {'op': 'warp', 'tf': {'offset': [R.randint(-300, 20), R.randint(-300, 20)]}},
                {'op': 'warp', 'tf': {'scale': R.choice([.3, .5, 2.2]), 'offset': [-R.randint(0, 200), -3]}, 'interpolation': R.choice(['nearest', 'linear'])},
                {'op': 'warp', 'tf': {'scale': [-1, 1]}},
                {'op': 'warp', 'tf': {'theta': R.choice([.3, 2.0, 3.1415926])}},
                {'op': 'crop', 'y': [3, 3], 'x': [None, None]},
                {'op': 'crop', 'y': [None, None], 'x': [R.randint(0, 500), 1000]},
                {'op': 'crop', 'y': [-4, None], 'x': [None, -900]},
                {'op': 'scale', 's': R.choice([.004, .01, .25])},
                {'op': 'overview', 'k': R.randint(1, 7)},
                {'op': 'padcrop', 'y': [-3, 2], 'x': [-7, -3]}]))
    return case


def run(case, ctx):
    node = imgref.build(case['prog'], imgref.Env(ctx.scratch))
    for op in case.get('tail', ()):
        node = imgref.apply_op(node, op)
    for which, root in (('', node), ('optimized ', node.optimize())):
        for n in util.walk(root):
            f = n.finalize(optimize=False)
            label = f'{which}{type(n).__name__} {dict(n.meta)!r:.300}'
            ctx.count('nodes')
            ctx.expect(f.shape == tuple(n.shape), f'{label}: shape {n.shape} but data {f.shape}')
            f = f if f.ndim == 3 else util.plain(f)
            ctx.expect(n.num_channels == f.shape[2], f'{label}: num_channels {n.num_channels} but data {f.shape}')
            ctx.expect(tuple(n.dsize) == (f.shape[1], f.shape[0]), f'{label}: dsize {n.dsize} but data {f.shape}')
            if n.channels is not None:
                ctx.expect(n.channels.numel() == f.shape[2], f'{label}: channels {n.channels} but data {f.shape}')
            ctx.distinct(type(n).__name__, [type(c).__name__ for c in n.children()], f.shape[0] % 2, f.shape[1] % 2, f.shape[2])
