"""
Exports, evaluation, render options and known-in-advance metadata.
"""
import copy
import warnings

import numpy as np

from vmon import gdalwatch, imggen, imgref, util

ID = 'P23'
TITLE = 'Exports and render options act on the whole tree and keep data and labels'
RULE = ('random trees: as_xarray and evaluate compared with finalize (values, dims, channel labels, further crops and '
        'selections), finalize with options compared with the tree built with these options everywhere, leafs with metadata '
        'given in advance compared with prepared ones; distinct = distinct (task, program)')
QUICK, THOROUGH = 1200, 30000
REQUIRE = {'xarrays': 300, 'labels': 200, 'evaluated': 100, 'eval_reads': 60, 'options': 300, 'unprepared': 100, 'anonymous': 10}
ASSUMPTIONS = ['render options overwrite the options of every operation that has them']


def gen(R, i, tier):
    task = ['xarray', 'options', 'evaluate', 'known', 'xarray', 'options'][i % 6]
    depth = [0, 1, 0, 1, 2][(i // 6) % 5]
    cfg = {'p_kw': 0.3, 'nops': [0, 4], 'nops_outer': [0, 3], 'p_unnamed': 0.2, 'chan_dups': R.random() < .5}
    if task == 'known':
        cfg['kinds'] = ('load',)
        depth = min(depth, 1)
    if task == 'evaluate' and R.random() < .4:
        cfg.update(kinds=('load',), nops=[0, 1], nops_outer=[0, 1])
    prog = imggen.rand_prog(R, cfg, depth=depth)
    if task in {'options', 'known'}:
        # what is optimized already is past the options, and does not know about overviews nobody told it about
        stack = [prog]
        while stack:
            p = stack.pop()
            stack += p.get('concat', [])
            p['ops'] = [o for o in p['ops'] if o['op'] != 'opt']
    case = {'task': task, 'prog': prog}
    if task == 'options':
        opts = {}
        if R.random() < .7:
            opts['interpolation'] = R.choice(['nearest', 'linear', 'cubic'])
        if R.random() < .5:
            opts['antialias'] = R.random() < .5
        if R.random() < .4:
            opts['border_value'] = R.choice([0, 3, 'auto'])
        if R.random() < .5 or not opts:
            opts['nodata_method'] = R.choice(['float', 'float', 'ma']) if depth == 0 else 'float'
        case['opts'] = opts
        leafs = list(imggen_leafs(prog))
        if depth == 0 and R.random() < .25:
            # nothing but nodata
            leafs[0].update(kind=R.choice(['nodata', 'nodata', 'nans']), dtype='float64')
            prog['ops'] = [o for o in prog['ops'] if o['op'] != 'dequant']
            opts['nodata_method'] = R.choice(['float', 'ma', 'ma'])
        for leaf in leafs:
            if leaf['kind'] == 'load' and R.random() < .5 and leaf['dtype'] != 'float64':
                leaf['nodata'] = 60 + R.randint(0, 20)
        if max(x['c'] for x in leafs) > 4 or depth:
            # (cubic needs at most four bands)
            if opts.get('interpolation') == 'cubic':
                opts['interpolation'] = 'nearest'
    if task == 'xarray':
        case['masked'] = R.random() < .3
    case['seed'] = R.randint(0, 10 ** 6)
    return case


def imggen_leafs(prog):
    if 'concat' in prog:
        for p in prog['concat']:
            yield from imggen_leafs(p)
    else:
        yield prog['leaf']


def with_opts(prog, opts):
    prog = copy.deepcopy(prog)
    stack = [prog]
    while stack:
        p = stack.pop()
        stack += p.get('concat', [])
        for op in p['ops']:
            if op['op'] in {'warp', 'scale', 'resize'}:
                op.update({k: v for k, v in opts.items() if k != 'nodata_method'})
        if 'leaf' in p and p['leaf']['kind'] in {'load', 'nodata'} and 'nodata_method' in opts:
            p['leaf']['nodata_method'] = opts['nodata_method']
    return prog


def equal(a, b):
    ma, mb = np.ma.isMaskedArray(a), np.ma.isMaskedArray(b)
    if ma != mb:
        return f'masked {ma} {mb}'
    if np.asarray(a).dtype != np.asarray(b).dtype:
        return f'dtype {np.asarray(a).dtype} {np.asarray(b).dtype}'
    return util.same(a, b)


def attempt(f):
    try:
        return f(), None
    except Exception as ex:
        return None, ex


def run(case, ctx):
    ctx.distinct(case['task'], util.opnames(case['prog']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['run_' + case['task']](case, ctx)


def run_xarray(case, ctx):
    prog = case['prog']
    if case['masked']:
        for leaf in imggen_leafs(prog):
            if leaf['kind'] == 'load' and leaf['dtype'] in {'int16', 'uint16'}:
                leaf['nodata'] = 60
                leaf['nodata_method'] = 'ma'
    node = imgref.build(prog, imgref.Env(ctx.scratch))
    for mode in (False, True):
        want, ex = attempt(lambda: node.finalize(optimize=mode))
        if ex is not None:
            ctx.count('unrenderable')
            return
        xa = node.as_xarray().finalize(optimize=mode)
        ctx.count('xarrays')
        if not ctx.expect(type(xa).__name__ == 'DataArray', f'exported a {type(xa).__name__}'):
            return
        ctx.expect(tuple(xa.dims) == ('y', 'x', 'c'), f'dims {xa.dims}')
        if want.ndim == 2:
            want = want[:, :, None]
        if np.ma.isMaskedArray(want):
            ctx.count('masked')
        elif want.dtype != xa.dtype:
            ctx.expect(False, f'dtype {xa.dtype} for {want.dtype}')
        e = util.same(xa.values, want)
        ctx.expect(e is None, f'optimize={mode}: exported data differs: {e}')
        src = node.optimize() if mode else node
        chans = src.channels
        if chans is not None:
            names = list(chans.normalize().to_list())
            ctx.count('labels')
            ctx.expect('c' in xa.coords and [str(c) for c in xa.coords['c'].values] == names,
                       f"labels {xa.coords.get('c')} for {names}")
            if len(set(names)) == len(names):
                k = case['seed'] % len(names)
                e = util.same(xa.sel(c=names[k]).values, want[:, :, k])
                ctx.expect(e is None, f'sel {names[k]}: {e}')
        else:
            ctx.expect('c' not in xa.coords, f'labels for unnamed bands: {xa.coords}')
    # a reader of the metadata sees the same image
    xn = node.as_xarray()
    ctx.expect(xn.shape == node.shape and xn.dsize == node.dsize, f'{xn.shape} for {node.shape}')
    ctx.expect(xn.channels == node.channels, f'{xn.channels} for {node.channels}')


def run_evaluate(case, ctx):
    import random
    R = random.Random(case['seed'])
    node = imgref.build(case['prog'], imgref.Env(ctx.scratch))
    if not hasattr(node, 'evaluate'):
        # (concatenations do not offer it)
        w, h = node.dsize
        node = node.crop((slice(0, int(h)), slice(0, int(w))))
    want, ex = attempt(node.finalize)
    if ex is not None:
        ctx.count('unrenderable')
        return
    snap = util.snapshot(node)
    with gdalwatch.watch() as log:
        ev = node.evaluate()
    ctx.count('eval_reads', len(log))
    ctx.count('evaluated')
    ctx.expect(util.snapdiff(snap, util.snapshot(node)) is None, 'evaluating changed the tree')
    ctx.expect(not list(ev.children()), 'an evaluated image has operations left')
    ctx.expect(tuple(ev.dsize) == tuple(node.dsize), f'size {ev.dsize} for {node.dsize}')
    ctx.expect(ev.channels == node.channels, f'channels {ev.channels} for {node.channels}')
    with gdalwatch.watch() as log:
        got = ev.finalize()
    ctx.expect(not log, f'rendering an evaluated image reads {log[:2]}')
    e = equal(got, want)
    ctx.expect(e is None, f'evaluated data differs: {e}')
    if want.ndim == 2:
        want = want[:, :, None]
    # work goes on from there
    h, w, c = want.shape
    y, x = R.randint(0, h - 1), R.randint(0, w - 1)
    sl = (slice(y, R.randint(y + 1, h)), slice(x, R.randint(x + 1, w)))
    idx = [R.randrange(c) for _ in range(R.randint(1, 3))]
    got = ev.crop(sl, idx).finalize()
    e = util.same(got, want[sl][:, :, idx])
    ctx.expect(e is None, f'crop {sl} {idx} of an evaluated image: {e}')
    if node.channels is not None:
        names = list(node.channels.normalize().to_list())
        if len(set(names)) == len(names):
            pick = R.sample(names, R.randint(1, len(names)))
            got = ev.take_channels('|'.join(pick)).finalize()
            e = util.same(got, want[:, :, [names.index(p) for p in pick]])
            ctx.expect(e is None, f'{pick} of an evaluated image: {e}')


def run_options(case, ctx):
    opts = dict(case['opts'])
    if imggen.prog_has(case['prog'], 'padcrop'):
        # (holds a warp that is no warp of the user)
        ctx.count('padcrop')
        return
    ref = imgref.build(with_opts(case['prog'], opts), imgref.Env(ctx.scratch))
    for mode in (False, True):
        node = imgref.build(case['prog'], imgref.Env(ctx.scratch))
        want, ex = attempt(lambda: ref.finalize(optimize=mode))
        if ex is not None:
            ctx.count('unrenderable')
            continue
        got = node.finalize(optimize=mode, **opts)
        ctx.count('options')
        e = equal(got, want)
        ctx.expect(e is None, f'finalize(optimize={mode}, **{opts}) differs from the tree with these options: {e}')
        if 'interpolation' in opts:
            # other options for the same tree
            opts2 = dict(opts, interpolation='linear' if opts['interpolation'] == 'nearest' else 'nearest')
            ref2 = imgref.build(with_opts(case['prog'], opts2), imgref.Env(ctx.scratch))
            want, ex = attempt(lambda: ref2.finalize(optimize=mode))
            if ex is None:
                got = node.finalize(optimize=mode, **opts2)
                ctx.count('again')
                e = equal(got, want)
                ctx.expect(e is None, f'finalize(optimize={mode}, **{opts2}) after other options differs from the tree with these options: {e}')


def run_known(case, ctx):
    """metadata given by the user instead of prepare()"""
    import delayed_image as di
    prog = case['prog']
    env = imgref.Env(ctx.scratch)
    ref = imgref.build(prog, env)
    orig = imgref.build_leaf
    anonymous = case['seed'] % 5 in (1, 3)

    def build_leaf(leaf, env):
        if leaf['kind'] != 'load':
            return orig(leaf, env)
        ctx.count('unprepared')
        if anonymous:
            # even the number of channels is unknown
            return di.DelayedLoad(imgref.leaf_file(leaf, env), dsize=(leaf['w'], leaf['h']), nodata_method=leaf.get('nodata_method'))
        kw = {}
        if case['seed'] % 2:
            kw['num_overviews'] = leaf.get('overviews', 0)
        return di.DelayedLoad(imgref.leaf_file(leaf, env), channels=leaf.get('channels') or leaf['c'], dsize=(leaf['w'], leaf['h']),
                              nodata_method=leaf.get('nodata_method'), **kw)
    imgref.build_leaf = build_leaf
    try:
        node, ex = attempt(lambda: imgref.build(prog, env))
    finally:
        imgref.build_leaf = orig
    if ex is not None:
        ctx.count('unbuildable')
        selects = any(name in str(prog) for name in ("'take'", "'chan'"))
        ctx.expect(anonymous and selects, f'cannot be built: {ex!r}')
        return
    ctx.expect(tuple(node.dsize) == tuple(ref.dsize), f'size {node.dsize} for {ref.dsize}')
    ctx.expect(node.num_channels == ref.num_channels or (anonymous and node.num_channels is None), f'{node.num_channels} channels for {ref.num_channels}')
    ctx.count('anonymous', anonymous)
    for mode in (False, True):
        want, ex = attempt(lambda: ref.finalize(optimize=mode))
        if ex is not None:
            ctx.count('unrenderable')
            continue
        for kw in ([{}, {'prepare': False}] if case['seed'] % 3 else [{'prepare': False}, {}]):
            got = node.finalize(optimize=mode, **kw)
            e = equal(got, want)
            ctx.expect(e is None, f'finalize(optimize={mode}, {kw}) differs from the prepared tree: {e}')
