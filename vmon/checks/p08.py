"""
Channels are selected by meaning: names stay attached to the right bands
through selection, concatenation, geometry and optimization.
"""
import numpy as np

from vmon import imgref, util

ID = 'P08'
TITLE = 'Every requested channel yields the right band, missing channels yield nan'
RULE = ('a tree of selections (names, codes, indices, slices), concatenations and geometry over leafs whose bands hold '
        'distinct constants is rendered optimized and not; each output band is identified by its value and compared '
        'with a list model; distinct = distinct (tree shape, selection kinds)')
QUICK, THOROUGH = 4000, 100000
REQUIRE = {'renamed': 100, 'bands': 20000, 'missing': 1500, 'by_name': 3000, 'by_index': 2000, 'raises': 300, 'concat': 2000,
           'dup_names': 100, 'coded': 500, 'lazy': 500}
ASSUMPTIONS = ['where a concatenation has unnamed parts only the values of its bands are judged, not the names']

POOL = ['a', 'b', 'c', 'red', 'nir', 'depth', 'r', 'g', 'k.0', 'k.1', 'k.2', 'k.3', 'k.7', 'z', 'B8A', 'x-y']
GROUPS = ['rgb', 'm:3', 'k.0:4', 'q.2:5', 'dxdy', 's.0:9:3', 'rgba']


def rand_names(R, n):
    """a spec string of exactly n channels"""
    toks, have = [], 0
    if R.random() < .35:
        g = R.choice(GROUPS)
        k = len(imgref._expand(g))
        if k <= n:
            toks.append(g)
            have += k
    pool = list(POOL)
    R.shuffle(pool)
    used = set(t for g in toks for t in imgref._expand(g))
    for name in pool:
        if have == n:
            break
        if name not in used:
            toks.append(name)
            have += 1
    R.shuffle(toks)
    return '|'.join(toks)


def rand_tree(R, depth, uid):
    if depth == 0 or R.random() < .25:
        c = R.randint(1, 7)
        node = {'leaf': {'uid': uid(), 'c': c, 'dtype': R.choice(['float32', 'int16', 'float64']), 'w': 12, 'h': 10}}
        if R.random() < .85:
            node['leaf']['channels'] = rand_names(R, c)
        if R.random() < .1:
            node['leaf']['gdal'] = 1
    else:
        node = {'concat': [rand_tree(R, depth - 1, uid) for _ in range(R.choice([1, 2, 2, 3]))]}
    node['ops'] = [rand_sel(R) for _ in range(R.choice([0, 0, 1, 1, 2, 3]))]
    return node


def rand_sel(R):
    t = R.choice(['names', 'names', 'names', 'codes', 'index', 'neg', 'slice', 'getitem', 'geom', 'geom', 'int', 'all'])
    return {'sel': t, 'seed': R.randint(0, 10 ** 9)}


def gen(R, i, tier):
    n = [0]

    def uid():
        n[0] += 1
        return n[0]
    tree = rand_tree(R, R.choice([0, 1, 1, 2, 2, 3]), uid)
    for _ in range(R.randint(1, 4)):
        tree['ops'].append(rand_sel(R))
    return {'tree': tree}


def leaf(spec, ctx):
    import delayed_image as di
    arr = np.zeros((spec['h'], spec['w'], spec['c']), dtype=spec['dtype'])
    vals = [spec['uid'] * 20 + k + 1 for k in range(spec['c'])]
    arr[:] = vals
    names = spec.get('channels')
    if spec.get('gdal'):
        fpath = f'{ctx.scratch}/{spec["uid"]}.tif'
        imgref.write_tif(fpath, arr)
        node = di.DelayedLoad(fpath, channels=names).prepare()
    else:
        node = di.DelayedIdentity(arr, channels=names)
    names = [None] * spec['c'] if names is None else imgref._expand(names)
    return node, [(a, float(b), a is None) for a, b in zip(names, vals)]


def tainted(model):
    """the names of a concatenation are unknown when those of a part are"""
    return any(m[2] for m in model)


def build(tree, ctx):
    import delayed_image as di
    if 'concat' in tree:
        built = [build(t, ctx) for t in tree['concat']]
        node = di.DelayedChannelConcat([b[0] for b in built])
        model = [m for b in built for m in b[1]]
        if tainted(model):
            model = [(a, b, True) for a, b, _ in model]
        ctx.count('concat')
    else:
        node, model = leaf(tree['leaf'], ctx)
    for op in tree['ops']:
        node, model = select(node, model, op, ctx)
    return node, model


def select(node, model, op, ctx):
    import random

    import delayed_image as di
    R = random.Random(op['seed'])
    kind = op['sel']
    n = len(model)
    named = not tainted(model)
    have = [m[0] for m in model]
    lazy = {}
    if not isinstance(node, di.DelayedChannelConcat) and op['seed'] % 3 == 0:
        lazy = {'lazy': True}
        ctx.count('lazy')
    if kind == 'geom':
        k = R.randint(0, 4)
        if k == 0:
            node = node[1:9, 2:11].resize((12, 10), interpolation='nearest')
        elif k == 1:
            node = node.get_overview(1).resize((12, 10), interpolation='nearest')
        elif k == 2:
            node = node.scale(2).optimize().resize((12, 10))
        elif k == 3:
            node = node.optimize()
        else:
            node = node.warp({'scale': [-1, 1], 'about': [6, 5]}, dsize=(12, 10))
        return node, model
    if kind in {'names', 'codes'}:
        if not named:
            # no names: by name must not silently give something
            ok = False
            try:
                node.take_channels('a|b')
            except Exception:
                ok = True
            ctx.count('raises')
            if node.channels is None:
                ctx.expect(ok, 'selecting by name from unnamed channels does not raise')
            return node, model
        if kind == 'codes':
            req = '|'.join(R.sample(GROUPS[:5] + ['k.0:8:2', 'q:3'], R.randint(1, 2)))
            want = imgref._expand(req)
            if len(set(want)) != len(want):
                return node, model
            ctx.count('coded')
        else:
            uniq = list(dict.fromkeys(have))
            want = R.sample(uniq, R.randint(1, min(6, len(uniq))))
            for _ in range(R.choice([0, 0, 1, 2])):
                m = R.choice(['nope', 'no.1', 'k.9', 'a.b' if 0 else 'other'])
                if m not in want:
                    want.insert(R.randint(0, len(want)), m)
            req = '|'.join(want)
        if len(set(have)) != n:
            ctx.count('dup_names')
        out = []
        missing = 0
        for w in want:
            if w in have:
                out.append(model[have.index(w)])
            else:
                out.append((w, np.nan, False))
                missing += 1
        ctx.count('by_name')
        ctx.count('missing', missing)
        arg = req if R.random() < .5 else di.FusedChannelSpec.coerce(req)
        if missing:
            raised = None
            try:
                node.take_channels(arg, missing_channel_policy='error')
            except ValueError as ex:
                raised = str(ex)
            ctx.count('raises')
            if ctx.expect(raised is not None, f'missing channels of {req} in {have} not reported with policy error'):
                for w in want:
                    if w not in have:
                        ctx.expect(w in raised, f'missing channel {w} not named in error {raised!r}')
            if R.random() < .5:
                return node.take_channels(arg, missing_channel_policy='return_nan'), out
        elif R.random() < .3:
            return node.take_channels(arg, missing_channel_policy='error'), out
        return node.take_channels(arg, **lazy), out
    ctx.count('by_index')
    if kind == 'index':
        idx = [R.randrange(n) for _ in range(R.randint(1, 6))]
        if R.random() < .2:
            return node.take_channels(idx, missing_channel_policy='error'), [model[i] for i in idx]
        return node.take_channels(idx), [model[i] for i in idx]
    if kind == 'neg':
        idx = [R.randrange(-n, n) for _ in range(R.randint(1, 4))]
        if R.random() < .5:
            return node.crop(None, idx), [model[i] for i in idx]
        return node.take_channels(idx, **lazy), [model[i] for i in idx]
    if kind == 'slice':
        a = R.randrange(n)
        s = slice(R.choice([None, a]), R.choice([None, R.randint(a + 1, n)]), R.choice([None, 1, 2]))
        out = model[s]
        if not out:
            return node, model
        return node.take_channels(s), out
    if kind == 'getitem':
        idx = [R.randrange(n) for _ in range(R.randint(1, 4))]
        return node[:, :, idx], [model[i] for i in idx]
    if kind == 'int':
        i = R.randrange(n)
        return node[:, :, i], [model[i]]
    if kind == 'all':
        if named and len(set(have)) == n:
            if R.random() < .5:
                # a permutation of everything
                perm = R.sample(range(n), n)
                return node.take_channels('|'.join(have[i] for i in perm), **lazy), [model[i] for i in perm]
            return node.take_channels('|'.join(have), **lazy), model
        return node.take_channels(list(range(n)), **lazy), model
    raise KeyError(kind)


def shape_of(tree):
    base = tuple(shape_of(t) for t in tree['concat']) if 'concat' in tree else tree['leaf']['c']
    return base, tuple(o['sel'] for o in tree['ops'])


def run(case, ctx):
    node, model = build(case['tree'], ctx)
    want = np.array([m[1] for m in model])
    named = not tainted(model)
    names = [m[0] for m in model]
    opt = node.optimize()
    for which, nd, img in [('', node, node.finalize(optimize=False)), ('optimized ', opt, node.finalize())]:
        img = util.plain(img).astype(float)
        ctx.expect(img.shape == (10, 12, len(model)), f'{which}shape {img.shape}, expected {(10, 12, len(model))}')
        ctx.expect(nd.num_channels == len(model), f'{which}num_channels {nd.num_channels} expected {len(model)}')
        if named:
            got = None if nd.channels is None else list(nd.channels.as_list())
            ctx.expect(got == names, f'{which}channel names {got} expected {names}')
            if got is not None:
                ctx.count('named')
                ctx.expect(list(nd.channels.normalize().parsed) == names, f'{which}normalized names differ')
        elif nd.channels is not None:
            got = nd.channels.as_list()
            ctx.expect(all(m is None or m == g for m, g in zip(names, got)), f'{which}names {got} expected {names}')
        if img.shape[2:] == (len(model),):
            px = img[5, 6]
            bad = ~((abs(px - want) < 1e-3) | (np.isnan(px) & np.isnan(want)))
            ctx.count('bands', len(model))
            ctx.expect(not bad.any(), f'{which}bands hold {px.tolist()}, expected {list(zip(names, want.tolist()))}')
    ctx.distinct(shape_of(case['tree']))
    rename(case, ctx, node, want)


def rename(case, ctx, node, want):
    """selections use the names that an image has now"""
    import delayed_image as di
    n = len(want)
    if not isinstance(node, di.DelayedImage) or not n or np.isnan(want).any():
        return
    node = node.crop((slice(0, 10), slice(0, 12)))
    names = ['q%d' % k for k in range(n)]
    for turn in range(2):
        node.channels = '|'.join(names)
        ctx.count('renamed')
        ctx.expect(node.num_channels == n and list(node.channels.as_list()) == names, f'renamed to {names}: {node.channels} {node.num_channels}')
        pick = names[-1:] + names[:-1]
        for opt in (False, True):
            img = util.plain(node.take_channels('|'.join(pick)).finalize(optimize=opt))
            px = np.asarray(img[5, 6], dtype=float)
            ref = np.array([want[names.index(p)] for p in pick])
            ctx.expect(px.shape == ref.shape and (np.abs(px - ref) < 1e-3).all(), f'renamed to {names}: {pick} hold {px.tolist()}, expected {ref.tolist()}')
        names = names[::-1]
