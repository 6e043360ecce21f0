"""
Reading no more than needed.

Every pixel read goes through GDAL bands or datasets, which are wrapped; each
read is attributed to a leaf and a level by the size of the raster.
"""
import math

import numpy as np

from vmon import gdalwatch, imggen, imgref, util

ID = 'P15'
TITLE = 'Optimized trees read just the bands and the window they need, and only when rendered'
RULE = ('random trees over several files end in a small crop; the recorded reads are compared with the footprint the reference model '
        'derives, and must be absent before rendering; distinct = distinct operation sequences')
QUICK, THOROUGH = 700, 20000
REQUIRE = {'renders': 600, 'reads': 900, 'tight': 500, 'levels': 100, 'bands_skipped': 200, 'files_skipped': 40, 'queries': 600}
ASSUMPTIONS = ['a read may exceed the exact footprint by the support of the filters and, for each warp of the chain, by the bounding box of a rotated window']

CFGS = [
    {'nops': (0, 3), 'nops_outer': (0, 3), 'weights': [3, 2, 4, 3, 2, .5, .8, 2, 2, .5]},
    {'nops': (1, 4), 'nops_outer': (0, 2), 'weights': [2, 2, 4, 3, 2, 0, .5, 1, 3, 0], 'p_missing': .3},
    {'nops': (0, 2), 'nops_outer': (1, 5), 'weights': [4, 2, 3, 3, 2, .5, .5, 3, 3, 1]},
]


def gen(R, i, tier):
    cfg = dict(CFGS[i % len(CFGS)])
    cfg.update(kinds=('load',), leaf_range=(180, 420), max_size=900, min_size=24, p_kw=.15, p_unnamed=0, p_nanpart=.1, ov_beyond=False)
    while True:
        prog = imggen.rand_prog(R, cfg)
        if has(prog, lambda o: o.get('interpolation') == 'nearest'):
            # crops are not moved below nearest warps
            continue
        sizes = [s for leaf in leafs(prog) for s in level_sizes(leaf).values()]
        if len(sizes) != len(set(sizes)):
            continue
        m = imgref.model(prog)
        if not has(prog, lambda o: o['op'] == 'overview' and o['k']):
            break
        # levels that are not stored are simulated from all of the image
        if all(c.nan or math.log2(1 / imgref.affine_scale(c.M).min()) <= c.leaf.get('overviews', 0) for c in m.chans):
            break
    # a selection of bands and a small window
    named = m.names is not None and R.random() < .7
    if len(m.chans) > 1 and R.random() < .7:
        k = R.randint(1, max(1, len(m.chans) // 2))
        idx = R.sample(range(len(m.chans)), k)
        op = {'op': 'take', 'spec': '|'.join(m.names[j] for j in idx) if named else idx}
        prog['ops'].append(op)
        m = imgref.model_op(m, op)
    w, h = m.dsize
    cw, ch = min(w, R.randint(1, 24)), min(h, R.randint(1, 24))
    x, y = R.randint(0, w - cw), R.randint(0, h - ch)
    prog['ops'].append({'op': 'crop', 'y': [y, y + ch], 'x': [x, x + cw]})
    return {'prog': prog, 'fast': R.randint(0, 1), 'twice': R.random() < .3}


def leafs(prog):
    if 'concat' in prog:
        for p in prog['concat']:
            yield from leafs(p)
    elif prog['leaf']['kind'] == 'load':
        yield prog['leaf']


def level_sizes(leaf):
    return {k: (-(-leaf['w'] // 2 ** k), -(-leaf['h'] // 2 ** k)) for k in range(leaf.get('overviews', 0) + 1)}


def has(prog, pred):
    return any(pred(o) for o in prog['ops']) or any(has(p, pred) for p in prog.get('concat', ()))


def chains(prog):
    """the warping operations above each leaf"""
    own = [o for o in prog['ops'] if o['op'] in {'warp', 'scale', 'resize', 'padcrop', 'overview'}]
    if 'concat' in prog:
        return {u: c + own for p in prog['concat'] for u, c in chains(p).items()}
    return {prog['leaf']['uid']: own}


def run(case, ctx):
    from delayed_image import lazy_loaders as L
    saved = L.GDAL_FAST_PATH
    L.GDAL_FAST_PATH = case['fast']
    try:
        check(case, ctx)
    finally:
        L.GDAL_FAST_PATH = saved


def check(case, ctx):
    prog = case['prog']
    m = imgref.model(prog)
    with gdalwatch.watch() as log:
        node = imgref.build(prog, imgref.Env(ctx.scratch))
        written = len(log)
        node.prepare()
        opt = node.optimize()
        if case['twice']:
            opt = opt.optimize()
        for n in (node, opt):
            n.shape, n.dsize, n.channels, n.num_channels, n.num_overviews, repr(n)
            n.nesting()
            n.as_graph()
            list(n.leafs())
        ctx.count('queries')
        early = log[written:]
    ctx.expect(not early, f'{len(early)} reads before rendering, e.g. {early[:2]}')
    with gdalwatch.watch() as log:
        f = opt.finalize(prepare=False, optimize=False)
    f = util.plain(f)
    h, w = f.shape[:2]
    ctx.expect((h, w) == (m.dsize[1], m.dsize[0]), f'shape {f.shape} expected {m.dsize}')
    ctx.count('renders')
    where = {}
    for leaf in leafs(prog):
        for k, s in level_sizes(leaf).items():
            where[s] = (leaf, k)
    chain = chains(prog)
    corners = np.array([[0, 0, 1], [w, 0, 1], [0, h, 1], [w, h, 1]]).T
    allowed = {}
    for c in m.chans:
        if c.nan:
            continue
        uid = c.leaf['uid']
        q = (np.linalg.inv(c.M) @ corners)[:2]
        lp = 1 / imgref.affine_scale(c.M).min()
        a, b = q.min(axis=1), q.max(axis=1)
        nw = len(chain[uid])
        turned = sum(1 for o in chain[uid] if o['op'] == 'warp' and set(o['tf']) & {'theta', 'shearx'})
        grow = (b - a) / 2 * (1.45 ** max(0, turned - 0) - 1 if turned > 1 else 0)
        # the filters of each stage, and of an antialiased reduction
        margin = (8 + 8 * nw) * max(1, lp) + 4 * 2 ** c.leaf.get('overviews', 0)
        box = allowed.setdefault(uid, {})
        box[c.k] = (a - grow - margin, b + grow + margin)
    used = set()
    for r in log:
        ctx.count('reads')
        if r.level not in where:
            ctx.err(f'unknown raster read: {r}')
            continue
        leaf, k = where[r.level]
        if k:
            ctx.count('levels')
        used.add(leaf['uid'])
        x0, y0, x1, y1 = np.array(r.win) * 2.0 ** k
        for b in r.bands:
            box = allowed.get(leaf['uid'], {}).get(b - 1)
            if not ctx.expect(box is not None, f'band {b} of leaf {leaf["uid"]} was read but is not needed: {r}'):
                continue
            lo, hi = np.clip(box[0], 0, [leaf['w'], leaf['h']]), np.clip(box[1], 0, [leaf['w'], leaf['h']])
            if (hi - lo).prod() < .25 * leaf['w'] * leaf['h']:
                ctx.count('tight')
            if (x1 - x0) * (y1 - y0) <= 24 ** 2 * 4 ** k:
                # next to nothing
                continue
            if (hi - lo).min() <= 0:
                # what is needed is not in the file, a crop has to read some of it
                continue
            s = 2.0 ** k
            ok = x0 >= box[0][0] - s and y0 >= box[0][1] - s and x1 <= box[1][0] + s and y1 <= box[1][1] + s
            ctx.expect(ok, f'leaf {leaf["uid"]} ({leaf["w"]}x{leaf["h"]}): {r} reads x {x0}..{x1} y {y0}..{y1} but needs only about '
                           f'x {box[0][0]:.1f}..{box[1][0]:.1f} y {box[0][1]:.1f}..{box[1][1]:.1f} (with margin)')
    # no band is read more often than it is wanted
    times = {}
    for r in log:
        if r.level in where:
            for b in r.bands:
                key = (where[r.level][0]['uid'], b - 1)
                times[key] = times.get(key, 0) + 1
    for (uid, k), n in times.items():
        want = sum(1 for c in m.chans if not c.nan and c.leaf['uid'] == uid and c.k == k)
        ctx.expect(n <= max(1, want), f'band {k + 1} of leaf {uid} was read {n} times for {want} channels')
    for leaf in leafs(prog):
        if leaf['uid'] not in allowed:
            ctx.count('files_skipped')
        else:
            ctx.count('bands_skipped', leaf['c'] - len(allowed[leaf['uid']]))
    ctx.distinct(util.opnames(prog), case['fast'])
