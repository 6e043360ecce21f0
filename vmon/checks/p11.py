"""
Overviews.

Each level of the pyramid of a file holds the ramp of positions plus a tag of
the level, so a render shows which level it was made from, and where.
"""
import math
import warnings
import os

import numpy as np

from vmon import imggen, imgref, util

ID = 'P11'
TITLE = 'Overviews deliver the stored pyramid and warps use exactly the level that loses no detail'
RULE = ('raw: get_overview(k) combined with crops, selections, dequantize, concats, nested overviews against the stored level, bitwise; '
        'auto: the level decoded from optimized renders of random warps against floor(log2(1/scale)); distinct = distinct (mode, operations, levels)')
QUICK, THOROUGH = 1500, 22000
REQUIRE = {'raw': 300, 'auto': 400, 'reduced': 100, 'beyond': 20, 'channels': 600, 'shifted': 80, 'shifted_px': 20000}
ASSUMPTIONS = []
TAG = 100000.0


def level_array(leaf, level):
    h = -(-leaf['h'] // 2 ** level)
    w = -(-leaf['w'] // 2 ** level)
    f = 2.0 ** level
    yy, xx = np.mgrid[0:h, 0:w]
    ramp = imgref.GX * (xx + 0.5) * f + imgref.GY * (yy + 0.5) * f
    return np.stack([ramp + imgref.chan_base(leaf, k) + TAG * level for k in range(leaf['c'])], axis=2).astype(leaf['dtype'])


def write(leaf, d):
    from osgeo import gdal
    gdal.UseExceptions()
    fpath = os.path.join(d, f'p{leaf["uid"]}_{os.getpid()}.tif')
    dt = {'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64, 'int32': gdal.GDT_Int32}[leaf['dtype']]
    opts = ['INTERLEAVE=' + leaf['interleave']] if leaf.get('interleave') else []
    if leaf.get('block'):
        opts += ['TILED=YES', f'BLOCKXSIZE={leaf["block"]}', f'BLOCKYSIZE={leaf["block"]}']
    ds = gdal.GetDriverByName('GTiff').Create(fpath, leaf['w'], leaf['h'], leaf['c'], dt, opts)
    for k in range(leaf['c']):
        ds.GetRasterBand(k + 1).WriteArray(level_array(leaf, 0)[:, :, k])
    n = leaf['overviews']
    if leaf['external']:
        # in a separate .ovr file
        ds = None
        ds = gdal.Open(fpath, gdal.GA_ReadOnly)
    if n:
        ds.BuildOverviews('NEAREST', [2 ** (i + 1) for i in range(n)])
        ds = None
        ds = gdal.Open(fpath + '.ovr' if leaf['external'] else fpath, gdal.GA_Update)
        for i in range(n):
            arr = level_array(leaf, i + 1)
            for k in range(leaf['c']):
                b = ds.GetRasterBand(k + 1)
                if leaf['external']:
                    b = b if i == 0 else b.GetOverview(i - 1)
                else:
                    b = b.GetOverview(i)
                assert (b.YSize, b.XSize) == arr.shape[:2]
                b.WriteArray(np.ascontiguousarray(arr[:, :, k]))
    ds = None
    return fpath


def rand_leaf(R, uid, size, names):
    w, h = size or (R.randint(60, 260), R.randint(60, 260))
    c = R.choice([1, 1, 2, 3, 4])
    leaf = {'kind': 'load', 'w': w, 'h': h, 'c': c, 'uid': uid, 'dtype': R.choice(['float32', 'float32', 'float64']),
            'overviews': R.choice([0, 1, 2, 3, 3, 4]), 'external': R.random() < .3,
            'interleave': R.choice([None, 'PIXEL', 'BAND']), 'block': R.choice([None, 32, 64])}
    leaf['channels'] = '|'.join(names[:c])
    del names[:c]
    return leaf


def gen_shifted(R):
    leaf = rand_leaf(R, 0, None, list(imggen.NAMES))
    leaf['overviews'] = max(R.choice([1, 2, 3]), leaf['overviews'])
    k = R.randint(1, min(3, leaf['overviews']))
    w, h = leaf['w'], leaf['h']
    x0, y0 = R.randint(0, w // 2), R.randint(0, h // 2)
    if R.random() < .6:
        x0, y0 = [v // 2 ** k * 2 ** k + R.choice([0, 1, 1, 2, -1]) for v in (x0, y0)]
        x0, y0 = max(x0, 0), max(y0, 0)
    return {'mode': 'shifted', 'leaf': leaf, 'k': k, 'y': [y0, R.randint(y0 + 8, h)], 'x': [x0, R.randint(x0 + 8, w)],
            'between': R.choice([None, None, 'take', 'concat', 'opt', 'dequantize']), 'twice': R.random() < .3}


def run_shifted(case, ctx):
    """the overview of a window that does not start on the grid of the level"""
    import delayed_image as di
    leaf, k = case['leaf'], case['k']
    node = di.DelayedLoad(write(leaf, ctx.scratch), channels=leaf['channels']).prepare()
    (y0, y1), (x0, x1) = case['y'], case['x']
    node = node[y0:y1, x0:x1]
    chans = list(range(leaf['c']))
    if case['between'] == 'take':
        chans = chans[::-1]
        node = node.take_channels(chans)
    elif case['between'] == 'concat':
        node = di.DelayedChannelConcat([node, node])
        chans = chans * 2
    elif case['between'] == 'opt':
        node = node.optimize()
    elif case['between'] == 'dequantize':
        node = node.dequantize(None)
    if case['twice'] and k > 1:
        node = node.get_overview(1).get_overview(k - 1)
    else:
        node = node.get_overview(k)
    f = util.plain(node.finalize()).astype(float)
    label = f'overview {k} of [{y0}:{y1}, {x0}:{x1}] of {leaf["h"]}x{leaf["w"]} {case["between"]}'
    ctx.count('shifted')
    s = 2 ** k
    shape = (-(-(y1 - y0) // s), -(-(x1 - x0) // s), len(chans))
    if case['twice'] or ctx.expect(f.shape == shape, f'{label}: shape {f.shape} expected {shape}'):
        h, w = f.shape[:2]
        yy, xx = np.mgrid[0:h, 0:w] + .5
        Y, X = y0 + yy * s, x0 + xx * s
        ok = (yy > 2) & (xx > 2) & (Y < y1 - 2.5 * s) & (X < x1 - 2.5 * s)
        for i, c in enumerate(chans):
            want = imgref.GX * X + imgref.GY * Y + imgref.chan_base(leaf, c) + TAG * k
            err = np.abs(f[:, :, i] - want)[ok]
            ctx.count('shifted_px', err.size)
            tol = .032 * s * (imgref.GX + imgref.GY) + 2e-6 * np.abs(want).max()
            ctx.expect((err <= tol).all(), f'{label}: channel {c}: {int((~(err <= tol)).sum())} of {err.size} pixels wrong, by up to {err.max() if err.size else 0} (tol {tol:.3g})')
    ctx.distinct('shifted', k, leaf['overviews'], y0 % s, x0 % s, case['between'], case['twice'])


def gen(R, i, tier):
    if i % 10 == 9:
        return gen_shifted(R)
    names = list(imggen.NAMES)
    R.shuffle(names)
    if i % 5 < 2:
        leaf = rand_leaf(R, 0, None, names)
        leaf['dtype'] = R.choice(['float32', 'float64', 'int32'])
        n = leaf['overviews']
        k = R.randint(0, n)
        ops = []
        for _ in range(R.randint(0, 3)):
            ops.append(R.choice(['crop', 'take', 'opt', 'nested']))
        return {'mode': 'raw', 'leaf': leaf, 'k': k, 'ops': [[o, R.randint(0, 10 ** 6)] for o in ops],
                'beyond': R.randint(1, 2) if R.random() < .2 else 0, 'pre': R.choice([None, None, 'take', 'crop', 'concat'])}
    size = (R.randint(60, 260), R.randint(60, 260)) if R.random() < .4 else None
    nleaf = 1 if size is None else R.randint(2, 3)
    leafs = [rand_leaf(R, u, size, names) for u in range(nleaf)]
    base = {'leaf': leafs[0], 'ops': []} if nleaf == 1 else {'concat': [{'leaf': lf, 'ops': []} for lf in leafs], 'ops': []}
    m = imgref.model(base)
    cfg = {'p_kw': 0.0, 'weights': [3, 0.5, 4, 4, 1.5, 0, 0, 0, .5, .5], 'min_size': 4, 'max_size': 500}
    n = R.randint(1, 5)
    ops = base['ops']
    tries = 0
    while len(ops) < n and tries < 50:
        tries += 1
        if R.random() < .35:
            op = {'op': 'warp', 'tf': {'scale': round(2 ** R.uniform(-4, 1), 3)}}
            if R.random() < .3:
                op['tf']['theta'] = round(R.uniform(-3, 3), 3)
                op['tf']['about'] = [m.dsize[0] // 2, m.dsize[1] // 2]
            elif R.random() < .2:
                s = op['tf']['scale']
                op['tf'] = {'scale': R.choice([[-s, s], [s, -s], [-s, -s]]), 'about': [m.dsize[0] // 2, m.dsize[1] // 2]}
            elif R.random() < .6:
                s = op['tf']['scale'] = 2.0 ** -R.randint(0, 3)
                op['dsize'] = [max(4, math.ceil(d * s) + R.choice([-20, -5, -1, 0, 0, 1, 4])) for d in m.dsize]
                if R.random() < .35:
                    # almost a level
                    op['tf']['scale'] = round(s * R.choice([.98, .975, 1.02, 1.025]), 4)
                elif R.random() < .8:
                    # on the grid of the level, or between
                    op['tf']['offset'] = [R.choice([0, 0, R.randint(-9, 9), .5, R.randint(-9, 9)]) for _ in range(2)]
        elif R.random() < .12:
            op = {'op': 'overview', 'k': 1}
            if (m.overviews or 0) < 1 or any(o['op'] != 'overview' for o in ops):
                continue
        else:
            op = imggen.rand_op(R, m, cfg)
        m2 = imgref.model_op(m, op)
        w, h = m2.dsize
        s = imgref.affine_scale(m2.chans[0].M)
        if not (4 <= w <= 500 and 4 <= h <= 500) or s.min() < .02 or s.max() > 6 or s.max() / s.min() > 5 or not m2.chans:
            continue
        ops.append(op)
        m = m2
    return {'mode': 'auto', 'prog': base}


def decomposed_scale(M):
    L = M[:2, :2]
    sx = math.hypot(L[0, 0], L[1, 0])
    return sx, abs(np.linalg.det(L)) / sx


def run(case, ctx):
    return {'raw': run_raw, 'auto': run_auto, 'shifted': run_shifted}[case['mode']](case, ctx)


def run_raw(case, ctx):
    import delayed_image as di
    leaf, k = case['leaf'], case['k']
    n = leaf['overviews']
    fpath = write(leaf, ctx.scratch)
    base = di.DelayedLoad(fpath, channels=leaf['channels']).prepare()
    ctx.expect(base.num_overviews == n, f'num_overviews {base.num_overviews} of a file with {n}')
    chans = list(range(leaf['c']))
    node = base
    if case['pre'] == 'take':
        chans = chans[::-1]
        node = node.take_channels(chans)
    elif case['pre'] == 'concat':
        node = di.DelayedChannelConcat([node, node])
        chans = chans * 2
    elif case['pre'] == 'crop' and leaf['h'] > 40 and leaf['w'] > 40:
        # aligned with the pixels of the level
        f = 2 ** k
        node = node[f:, 2 * f:]
        if k == 0:
            pass
    node = node.get_overview(k)
    level = k
    want = level_array(leaf, level)
    if case['pre'] == 'crop' and leaf['h'] > 40 and leaf['w'] > 40:
        want = want[1:, 2:]
    want = want[:, :, chans]
    label = f'overview {k} of {n} after {case["pre"]}'
    sig = []
    simulated = False
    for name, seed in case['ops']:
        rr = np.random.default_rng(seed)
        h, w = want.shape[:2]
        if 0 in (h, w):
            break
        if name == 'crop':
            y0, x0 = int(rr.integers(0, h)), int(rr.integers(0, w))
            y1, x1 = int(rr.integers(y0, h + 1)), int(rr.integers(x0, w + 1))
            node = node[y0:y1, x0:x1]
            want = want[y0:y1, x0:x1]
        elif name == 'take':
            idx = [int(v) for v in rr.integers(0, want.shape[2], size=int(rr.integers(1, 4)))]
            if node.channels is not None:
                idx = list(dict.fromkeys(idx))
            node = node[:, :, idx]
            want = want[:, :, idx]
        elif name == 'opt':
            node = node.optimize()
        elif name == 'nested':
            if level < n and not (set(sig) & {'crop'}) and case['pre'] != 'crop':
                prev = want
                # unoptimized, only a direct access reaches the file
                simulated |= bool(set(sig) - {'nested'}) or case['pre'] is not None
                node = node.get_overview(1)
                level += 1
                cidx = [int(round((v - level_array(leaf, level - 1)[0, 0, 0]) / 400)) for v in prev[0, 0]]
                want = level_array(leaf, level)[:, :, cidx]
            else:
                continue
        sig.append(name)
    label += f' then {sig}'
    ctx.expect(node.num_overviews == n - level, f'{label}: {node.num_overviews} overviews remain, expected {n - level}')
    opt = node.optimize()
    for which, f in (('', node.finalize(optimize=False)), ('optimized ', opt.finalize())):
        f = util.plain(f)
        if which == '' and simulated:
            continue
        if which == '' and case['pre'] == 'crop' and k:
            # unoptimized: the overview of a crop is computed from the crop
            ctx.expect(f.shape == want.shape, f'{which}{label}: shape {f.shape} expected {want.shape}')
            continue
        if case['pre'] == 'concat' and which == '' and k:
            continue
        if case['pre'] == 'take' and which == '' and k:
            continue
        e = util.same(f, want)
        ctx.expect(e is None, f'{which}{label}: {e}')
    ctx.count('raw')
    ctx.distinct('raw', k, n, case['pre'], sig, leaf['interleave'], leaf['external'], leaf['dtype'])
    if case['beyond']:
        # more reduction than there are stored levels
        ctx.count('beyond')
        b = base.get_overview(n + case['beyond'])
        ctx.expect(b.num_overviews == 0, f'{b.num_overviews} overviews remain after overview {n + case["beyond"]} of {n}')
        for opt in (False, True):
            f = util.plain(b.finalize(optimize=opt))
            ctx.expect(f.shape == tuple(b.shape), f'overview {n + case["beyond"]} of {n}: shape {b.shape} data {f.shape}')
            pos = level_array(leaf, n + case['beyond']) - TAG * (n + case['beyond'])
            got = f - TAG * np.round((f - pos) / TAG)
            # nearest position, and the size is a rounded one
            lim = 1.55 * (imgref.GX + imgref.GY) * 2 ** (n + case['beyond']) + .1
            m = np.abs(got - pos)[:-1, :-1]
            ctx.expect(m.size == 0 or m.max() <= lim, f'overview {n + case["beyond"]} of {n} is misplaced by {m.max() if m.size else 0}')
            # the same in two steps
            for j in range(1, n + 1):
                two = base.get_overview(j).get_overview(n + case['beyond'] - j)
                g = util.plain(two.finalize(optimize=opt))
                ctx.expect(g.shape == tuple(two.shape) == f.shape, f'overview {j} and {n + case["beyond"] - j} of {n}: shape {two.shape} data {g.shape}')
                if g.shape == f.shape:
                    got = g - TAG * np.round((g - pos) / TAG)
                    m = np.abs(got - pos)[:-1, :-1]
                    ctx.expect(m.size == 0 or m.max() <= lim, f'overview {j} and {n + case["beyond"] - j} of {n} is misplaced by {m.max() if m.size else 0}')
        # parts with other levels
        ctx.count('unequal')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            both = di.DelayedChannelConcat([base, di.DelayedIdentity(np.zeros((leaf['h'], leaf['w'], 1), dtype='float32'), channels='zz')])
            got = both.num_overviews
        ctx.expect(not got or n == 0, f'{got} overviews of a concatenation with a part that has none')


def run_auto(case, ctx):
    import delayed_image as di
    m = imgref.model(case['prog'])
    env = imgref.Env(ctx.scratch)
    prog = case['prog']
    parts = prog.get('concat', [prog])
    nodes = [di.DelayedLoad(write(p['leaf'], ctx.scratch), channels=p['leaf']['channels']).prepare() for p in parts]
    node = di.DelayedChannelConcat(nodes) if 'concat' in prog else nodes[0]
    for op in prog['ops']:
        node = imgref.apply_op(node, op)
    f = util.plain(node.finalize())
    if f.shape != m.shape:
        ctx.err(f'shape {f.shape} expected {m.shape}')
        return
    ctx.count('auto')
    levels = []
    nwarps = sum(o['op'] in {'warp', 'scale', 'resize', 'overview'} for o in prog['ops'])
    h, w = f.shape[:2]
    P = np.stack([g.ravel() for g in np.meshgrid(np.arange(w) + .5, np.arange(h) + .5)] + [np.ones(h * w)])
    out = f.copy()
    for k, c in enumerate(m.chans):
        if c.nan:
            continue
        q = np.linalg.inv(c.M) @ P
        exp = (imgref.GX * q[0] + imgref.GY * q[1] + imgref.chan_base(c.leaf, c.k)).reshape(h, w)
        with np.errstate(invalid='ignore'):
            lev = np.round((f[:, :, k] - exp) / TAG)
        ok = np.isfinite(f[:, :, k])
        inside = np.ones((h, w), dtype=bool)
        for N, cw, ch in c.clips:
            p = np.linalg.inv(N) @ P
            fs = max(1.0, 1.0 / imgref.affine_scale(N).min()) + max(1.0, imgref.affine_scale(np.linalg.inv(N) @ c.M).max())
            # 16: the support of the filter of the coarsest level
            inside &= (np.minimum.reduce([p[0], p[1], cw - p[0], ch - p[1]]) > 3 * fs).reshape(h, w)
        sx, sy = decomposed_scale(c.M)
        s = max(sx, sy)
        ideal = math.log2(1 / s) if s <= 0.5 * (1 + 1e-9) else 0.0
        n = c.leaf['overviews']
        want = {min(n, math.floor(ideal + 1e-6)), min(n, max(0, math.floor(ideal - 1e-6)))}
        if nwarps > 1:
            # a reduction that was followed by a magnification below two may
            # keep the coarser level
            worst = min(n, math.ceil(math.log2(2 / s) - 1e-6) - 1)
            want |= set(range(min(want), worst + 1))
        sel = inside & ok
        levels.append(sorted(want))
        out[:, :, k] -= TAG * lev.clip(0, 9)
        if not sel.any():
            continue
        got = set(np.unique(lev[sel]).astype(int).tolist())
        ctx.count('channels')
        if max(want) > 0:
            ctx.count('reduced')
        ctx.expect(got <= want, f'channel {k}: rendered from level {sorted(got)} of {n}, expected {sorted(want)} (scale {sx:.4f},{sy:.4f})')
    # the levels are positioned right, too
    errs, st = imgref.check_final(m, np.where(np.isfinite(f), out, f), rtol_px=0.2)
    ctx.count('px_inside', st['inside'])
    for e in errs:
        if 'interior' in e:
            ctx.err(e)
    ctx.distinct('auto', [o['op'] for o in prog['ops']], levels)
