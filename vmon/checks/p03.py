"""
Working with a tree never changes it: optimize / finalize / derived trees are
pure, repeatable and idempotent.
"""
import random

import numpy as np

from vmon import imggen, imgref, util
from vmon.checks import p01

ID = 'P03'
TITLE = 'Optimizing, rendering and deriving never modify the tree and are repeatable'
RULE = ('a case runs a random history of operations over one tree with a full snapshot (identity, metadata, pixel '
        'hash of every node) compared after every step; distinct = distinct (tree nesting, history)')
QUICK, THOROUGH = 1200, 22000
REQUIRE = {'kept': 1500, 'steps': 2000, 'rerenders': 250, 'dags': 400, 'shared': 150}
ASSUMPTIONS = []

STEPS = ['optimize', 'optimize', 'finalize_opt', 'finalize_raw', 'crop', 'warp', 'take', 'overview', 'undo_warps',
         'tfs', 'text', 'graph', 'reoptimize', 'concat', 'nesting', 'leafs', 'undo_warp', 'dequant', 'evaluate']


DAGS = [
    {'p_kw': .1, 'p_nanpart': 0, 'p_share': 1, 'content': 'noise', 'kinds': ['load'], 'nops_outer': (0, 0), 'nops': (1, 4), 'weights': [5, 1, 4, 2, 2, 1, 0, 5, 2, 1]},
    {'p_kw': .3, 'p_nanpart': 0, 'p_share': 1, 'content': 'noise', 'nops_outer': (0, 0), 'nops': (1, 5)},
    {'p_kw': .3, 'p_nanpart': 0, 'p_share': 1, 'content': 'noise', 'nops_outer': (0, 0), 'nops': (1, 4), 'dtypes': ('int16', 'uint16')},
]


def gen(R, i, tier):
    if i % 4 == 3:
        cfg = dict(DAGS[i // 4 % 3])
        # more nodes that are used twice, also across levels
        return {'dag': [imggen.rand_prog(R, cfg, depth=R.choice([1, 1, 2]))]}
    cfg = dict(p01.CFGS[i % len(p01.CFGS)])
    cfg['min_size'] = 8
    return {'prog': imggen.rand_prog(R, cfg),
            'steps': [R.choice(STEPS) for _ in range(R.randint(3, 7))], 'seed': R.randint(0, 10 ** 9)}


def derive(name, node, R, ctx, prog):
    import delayed_image as di
    w, h = node.dsize
    if name == 'crop':
        return node[R.randint(0, 2):h - R.randint(0, 2), R.randint(0, 2):w]
    if name == 'warp':
        return node.warp({'scale': R.choice([0.5, 0.7, 1.5]), 'offset': (1.5, 2)})
    if name == 'take':
        return node.take_channels([R.randrange(node.num_channels)])
    if name == 'overview':
        return node.get_overview(1)
    if name == 'dequant':
        if imggen.prog_has(prog, 'dequant'):
            return None
        return node.dequantize({'quant_max': 100})
    if name == 'concat':
        return di.DelayedChannelConcat([node, node.crop((slice(0, h), slice(0, w)))])
    return None


def run_dag(case, ctx):
    """parts that share nodes render as they do alone"""
    import delayed_image as di
    for prog in case['dag']:
        env = imgref.Env(ctx.scratch)
        node = imgref.build(prog, env)
        parts = [imgref.build(p, env) for p in prog['concat']]
        # the same programs without anything in common
        alone = [imgref.build(p, imgref.Env(ctx.scratch)) for p in prog['concat']]
        before = util.snapshot(node)
        ctx.count('shared', len(env.shared))
        want = [np.array(util.plain(p.finalize())) for p in alone]
        ref = np.concatenate(want, axis=2)
        for label, tree in (('tree', node), ('tree of the same parts', di.DelayedChannelConcat(parts)), ('reversed tree', di.DelayedChannelConcat(parts[::-1]))):
            got = util.plain(tree.finalize())
            ctx.count('dags')
            w = np.concatenate(want[::-1], axis=2) if label[0] == 'r' else ref
            e = util.same(got, w)
            ctx.expect(e is None, f'{label} of parts with common nodes renders unlike its parts: {e}')
            ctx.expect(util.snapdiff(before, util.snapshot(node)) is None, f'rendering the {label} changed the shared nodes')
        kept = []
        for k, (p, w) in enumerate(zip(parts, want)):
            kept.append(p.finalize())
            e = util.same(kept[-1], w)
            ctx.expect(e is None, f'part {k} renders differently after its siblings: {e}')
        for k, (got, w) in enumerate(zip(kept, want)):
            e = util.same(got, w)
            ctx.count('kept')
            ctx.expect(e is None, f'the result of rendering part {k} changed when another part was rendered: {e}')
        ctx.distinct('dag', util.opnames(prog))


def run(case, ctx):
    if 'dag' in case:
        return run_dag(case, ctx)
    R = random.Random(case['seed'])
    node = imgref.build(case['prog'], imgref.Env(ctx.scratch))
    before = util.snapshot(node)
    # results of earlier renders stay what they are
    kept = [node.finalize(optimize=False)]
    raw0 = np.array(util.plain(kept[0]))
    kept.append(node.finalize(optimize=True))
    opt0 = np.array(util.plain(kept[1]))
    copies = [raw0, opt0]
    opt_struct = util.structure(node.optimize())

    def check(step):
        ctx.count('steps')
        diff = util.snapdiff(before, util.snapshot(node))
        if diff:
            ctx.err(f'the tree changed after {step}: {diff}')
        return not diff
    if not check('finalize'):
        return
    last_opt = None
    sub_concat = any(hasattr(n, 'parts') for n in list(util.walk(node))[1:])
    has_concat = any(hasattr(n, 'parts') for n in util.walk(node))
    for step in case['steps']:
        if step == 'optimize':
            o = node.optimize()
            ctx.expect(util.structure(o) == opt_struct, f'optimizing again gives another tree')
            last_opt = o
        elif step == 'reoptimize':
            o = last_opt or node.optimize()
            osnap = util.snapshot(o)
            o2 = o.optimize()
            ctx.expect(util.snapdiff(osnap, util.snapshot(o)) is None, 'optimizing an optimized tree changed it')
            f2 = util.plain(o2.finalize(optimize=False))
            e = util.same(f2, opt0, atol=1e-3)
            ctx.count('reoptimized')
            if tuple(o2.shape) != tuple(o.shape):
                ctx.err(f'optimizing twice changes the shape {o.shape} {o2.shape}')
            elif e and util.structure(o2) == opt_struct:
                ctx.err(f'same tree renders differently: {e}')
        elif step == 'finalize_opt':
            e = util.same(node.finalize(), opt0)
            ctx.count('rerenders')
            ctx.expect(e is None, f'rendering again differs: {e}')
        elif step == 'finalize_raw':
            e = util.same(node.finalize(optimize=False), raw0)
            ctx.count('rerenders')
            ctx.expect(e is None, f'rendering again without optimize differs: {e}')
        elif step == 'undo_warps':
            if not hasattr(node, 'undo_warps') or sub_concat:
                continue
            parts, tfs = node.undo_warps(remove=['scale'], return_warps=True) if R.random() < .5 else (node.undo_warps(remove=['rotation', 'offset']), None)
            for p in parts:
                p.optimize()
        elif step == 'undo_warp':
            if hasattr(node, 'undo_warp') and not has_concat:
                node.undo_warp(remove=['scale', 'offset'])
        elif step == 'tfs':
            for leaf, part in node._leaf_paths():
                part.get_transform_from_leaf()
        elif step == 'text':
            node.write_network_text(rich=False)
        elif step == 'graph':
            g = node.as_graph()
            for _, data in g.nodes(data=True):
                data['meta'].clear()
        elif step == 'nesting':
            node.nesting()
        elif step == 'leafs':
            list(node.leafs())
        elif step == 'evaluate':
            if hasattr(node, 'evaluate'):
                ev = node.evaluate()
                e = util.same(ev.finalize(), opt0)
                ctx.expect(e is None, f'evaluated image differs: {e}')
        else:
            d = derive(step, node, R, ctx, case['prog'])
            if d is None:
                continue
            dsnap = util.snapshot(d)
            if len(kept) < 6:
                kept.append(d.finalize())
                copies.append(np.array(util.plain(kept[-1])))
            d.finalize()
            d.optimize()
            ctx.expect(util.snapdiff(dsnap, util.snapshot(d)) is None,
                       f'rendering a derived tree ({step}) changed it: {util.snapdiff(dsnap, util.snapshot(d))}')
        if not check(step):
            return
    e = util.same(node.finalize(optimize=False), raw0)
    ctx.expect(e is None, f'after the history, rendering differs: {e}')
    e = util.same(node.finalize(), opt0)
    ctx.expect(e is None, f'after the history, optimized rendering differs: {e}')
    for got, want in zip(kept, copies):
        e = util.same(got, want)
        ctx.count('kept')
        ctx.expect(e is None, f'the result of an earlier render changed: {e}')
    ctx.distinct(util.opnames(case['prog']), case['steps'])
