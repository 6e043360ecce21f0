"""
A warp samples like an independent implementation of affine resampling, and a
crop of a warp is the same window of it, up to its very edge.
"""
import numpy as np

from vmon import imggen, imgref, util

ID = 'P07'
TITLE = 'A warp resamples like an independent reference, also in every crop window'
RULE = ('one warp over noise is rendered, and several crop / band windows of it are rendered optimized; every pixel is '
        'compared with a numpy bilinear / bicubic / nearest reference including the fill; distinct = distinct '
        '(transform kind, options, leaf kind, window shapes)')
QUICK, THOROUGH = 1600, 40000
REQUIRE = {'px': 1000000, 'windows': 2500, 'edge_px': 30000, 'smooth_px': 3000, 'fill_px': 50000, 'linear': 420, 'cubic': 60, 'nearest': 100, 'strips': 25,
           'reflect': 10, 'replicate': 10, 'wrap': 10, 'concats': 50, 'continued_windows': 150}
ASSUMPTIONS = ['positions are trusted to 1/16 source pixel: pixels whose interpolation support changes within that '
               'distance may take either value', 'antialiased downsampling is compared with the uncropped render']


def gen(R, i, tier):
    names = list(imggen.NAMES)
    c = R.choice([1, 2, 3, 4, 5])
    leaf = {'kind': R.choice(['ident', 'load']), 'w': R.randint(6, 60), 'h': R.randint(6, 60), 'c': c, 'uid': 0,
            'content': 'noise', 'seed': R.randint(0, 10 ** 6), 'dtype': R.choice(['float32', 'float64', 'uint8', 'int16', 'uint16']),
            'channels': '|'.join(names[:c])}
    if leaf['kind'] == 'ident' and c == 1 and R.random() < .5:
        leaf['flat'] = 1
    if leaf['kind'] == 'load':
        leaf['block'] = R.choice([None, 16])
        leaf['interleave'] = R.choice([None, 'PIXEL', 'BAND'])
    strip = i % 40 == 11
    if strip:
        # long and thin: tiny coefficients matter at the far end
        leaf['w'], leaf['h'] = (R.randint(1500, 3000), R.randint(5, 9))[::R.choice([1, -1])]
    if c > 1 and R.random() < .1:
        leaf['cat'] = R.randint(1, c - 1)
    while True:
        tf = imggen.rand_tf(R)
        if strip:
            e = R.choice([3e-4, 9e-4, 2e-3]) * R.choice([-1, 1])
            tf = R.choice([{'theta': e}, {'shearx': e}, {'scale': 1 + e}, {'scale': [1 + e, 1]}, {'scale': [1, 1 + e]},
                           {'scale': [1, 1 + e], 'theta': -e}, {'scale': [1 + e, 2], 'offset': [2, 1]}])
        if i % 16 == 5:
            # almost a resize
            tf = {'scale': R.choice([1, 2, .5, [2, 1], 1.5])}
            t = R.randrange(4)
            if t == 0:
                tf['theta'] = R.choice([-.09, -.03, .03, .09])
            elif t == 1:
                tf['shearx'] = R.choice([-.09, .09])
            else:
                tf['offset'] = [R.choice([-.7, .7, 3, -4]), R.choice([0, 0, .6, 5])][::R.choice([-1, 1])]
        op = {'op': 'warp', 'tf': tf}
        if not strip and R.random() < (.9 if i % 16 == 5 else .5):
            op['dsize'] = [R.randint(3, 100), R.randint(3, 100)]
            if R.random() < (.8 if i % 16 == 5 else .3):
                # the size of a plain resize
                s = tf.get('scale', 1)
                sx, sy = s if isinstance(s, list) else (s, s)
                op['dsize'] = [max(1, round(abs(sx) * leaf['w'])), max(1, round(abs(sy) * leaf['h']))]
        op['interpolation'] = R.choice(['linear', 'linear', 'linear', 'cubic', 'cubic', 'lanczos', 'nearest'])
        if i % 16 == 5 and R.random() < .6:
            op['interpolation'] = 'nearest'
        if R.random() < .2:
            op['code'] = 1
        isf = leaf['dtype'][0] == 'f'
        bv = [0, 7, 'auto', 'auto']
        if isf:
            bv += ['nan']
        if c <= 4:
            bv += ['tuple']
        op['border_value'] = R.choice(bv)
        if op['border_value'] == 'tuple':
            op['border_value'] = [R.randint(1, 90) for _ in range(c)]
        if R.random() < .12:
            # (cv2 continues cubic kernels differently)
            modes = ['replicate', 'constant'] + ['reflect', 'wrap'] * (op['interpolation'] != 'cubic')
            op['border_value'] = R.choice(modes)
            if R.random() < .4 and not strip:
                tf = op['tf'] = R.choice([{'scale': 2}, {'scale': [1, 2]}, {'scale': 1.5, 'offset': [3, 0]}, {'scale': 2, 'offset': [0, -4]},
                                          {'offset': [2, 5]}, {'scale': .5}, {'offset': [0, 3]}])
                if R.random() < .7:
                    s = tf.get('scale', 1)
                    sx, sy = s if isinstance(s, list) else (s, s)
                    op['dsize'] = [round(sx * leaf['w']), round(sy * leaf['h'])]
                if R.random() < .5:
                    op['interpolation'] = 'nearest'
        M = np.asarray(imgref.coerce_tf(tf)).astype(float) if imgref.coerce_tf(tf).matrix is not None else np.eye(3)
        s = imgref.affine_scale(M)
        op['antialias'] = R.random() < .5
        if op['interpolation'] == 'cubic' and R.random() < .5:
            op['smooth'] = 1
        if R.random() < .5:
            del op['antialias']
        if op['interpolation'] in {'cubic', 'lanczos'}:
            if c > 4:
                continue
            if (op['interpolation'] == 'cubic' or not is_smooth(op)) and isf and op['border_value'] in ('auto', 'nan'):
                op['border_value'] = 0
        d = op.get('dsize') or imgref.auto_dsize(M, (leaf['w'], leaf['h']))
        if min(d) < 2 or max(d) > (3100 if strip else 160):
            continue
        break
    if is_smooth(op):
        leaf['content'] = 'ramp'
        if leaf['dtype'] == 'uint8':
            leaf['dtype'] = 'int16'
    w, h = d
    wins = []
    for _ in range(3):
        y0 = R.randint(0, h - 1)
        x0 = R.randint(0, w - 1)
        win = {'y': [y0, R.randint(y0 + 1, min(h, y0 + R.choice([1, 3, 20, 200])))
                     if y0 + 1 < min(h, y0 + 200) else y0 + 1],
               'x': [x0, x0 + R.randint(1, max(1, min(w - x0, R.choice([1, 4, 20, 200]))))]}
        if R.random() < .25:
            x0 = 0
            win['x'] = [0, R.choice([w, R.randint(1, w)])]
        if R.random() < .25:
            y0 = 0
        if strip and R.random() < .7:
            x0, y0 = (max(0, w - R.randint(1, 200)), 0) if w > h else (0, max(0, h - R.randint(1, 200)))
            win['x'] = [x0, R.randint(x0 + 1, w)]
        y1 = y0 + R.randint(1, max(1, min(h - y0, R.choice([1, 4, 20, 200]))))
        win['y'] = [y0, y1]
        if R.random() < .3:
            win['chan'] = R.sample(range(c), R.randint(1, c))
        if R.random() < .3:
            win['open'] = 1
        wins.append(win)
    return {'leaf': leaf, 'op': op, 'wins': wins}


def is_smooth(op):
    tf = imgref.coerce_tf(op['tf'])
    d = tf.decompose()['scale'] if tf.matrix is not None else (1, 1)
    if op['interpolation'] == 'lanczos' or op.get('smooth'):
        return True
    return op['interpolation'] != 'nearest' and op.get('antialias', True) and min(np.abs(d)) < 1


def weights_cubic(t):
    A = -0.75
    w0 = ((A * (t + 1) - 5 * A) * (t + 1) + 8 * A) * (t + 1) - 4 * A
    w1 = ((A + 2) * t - (A + 3)) * t * t + 1
    w2 = ((A + 2) * (1 - t) - (A + 3)) * (1 - t) * (1 - t) + 1
    return [w0, w1, w2, 1 - w0 - w1 - w2]


def reference(src, M, dsize, interp, fill, clip=None, mode='constant'):
    """
    Returns value, lo, hi: the reference image and the range of values it may
    take when positions are off by EPS (nan: may be nan)
    """
    EPS = 1 / 16
    h, w, C = src.shape
    W, H = dsize
    yy, xx = np.mgrid[0:H, 0:W]
    P = np.stack([xx.ravel() + .5, yy.ravel() + .5, np.ones(W * H)])
    q = np.linalg.inv(M) @ P
    px, py = q[0] - .5, q[1] - .5
    pad = 6
    big = np.empty((h + 2 * pad, w + 2 * pad, C))
    big[:] = fill
    big[pad:-pad, pad:-pad] = src

    def continued(i, n):
        if mode == 'wrap':
            return i % n
        if mode == 'reflect':
            i = i % (2 * n)
            return np.where(i < n, i, 2 * n - 1 - i)
        return np.clip(i, 0, n - 1)

    def at(ix, iy):
        if mode != 'constant':
            return src[continued(iy, h), continued(ix, w)]
        return big[np.clip(iy + pad, 0, h + 2 * pad - 1), np.clip(ix + pad, 0, w + 2 * pad - 1)]

    def sample(px, py):
        ix, iy = np.floor(px).astype(int), np.floor(py).astype(int)
        fx, fy = px - ix, py - iy
        acc = np.zeros((len(px), C))
        if interp == 'linear':
            wx, wy = [1 - fx, fx], [1 - fy, fy]
            o = 0
        else:
            wx, wy = weights_cubic(fx), weights_cubic(fy)
            o = 1
        for j, b in enumerate(wy):
            for i, a in enumerate(wx):
                k = (a * b)[:, None]
                v = at(ix + i - o, iy + j - o)
                acc += np.where(k == 0, 0, k * v)
        return acc
    if interp == 'nearest':
        # any pixel within one pixel of the position
        vals = []
        r = int(np.ceil(1 / imgref.affine_scale(M).min() - 1e-6))
        for dx in range(-r, r + 1):
            for dy in range(-r, r + 1):
                vals.append(at(np.floor(q[0]).astype(int) + dx, np.floor(q[1]).astype(int) + dy))
        return np.stack(vals, axis=0).reshape(-1, H, W, C), None, None
    def probes(p):
        # (kinks of the response are at the pixel centers)
        r = np.round(p)
        return [p - EPS, p, p + EPS, np.where(np.abs(p - r) < EPS, r, p)]
    vals = [sample(a, b) for a in probes(px) for b in probes(py)]
    V = np.stack(vals).reshape(16, H, W, C)
    if clip is not None:
        V = V.clip(*clip)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return V, np.nanmin(V, axis=0), np.nanmax(V, axis=0)


def judge(got, V, lo, hi, interp, isint, sl, ch, scale):
    """compare one window of the output"""
    got = util.plain(got).astype(float)
    V = V[(slice(None),) + sl][..., ch]
    if got.shape != V.shape[1:]:
        return f'shape {got.shape} != {V.shape[1:]}'
    nn = np.isnan(V)
    if interp == 'nearest':
        ok = ((V == got) | (nn & np.isnan(got))).any(axis=0)
    else:
        lo, hi = lo[sl][..., ch], hi[sl][..., ch]
        eps = (1.01 if isint else 1e-4 * scale)
        with np.errstate(invalid='ignore'):
            ok = (got >= lo - eps) & (got <= hi + eps) & ~nn.all(axis=0)
            # the response has kinks between the probed positions
            slack = (hi - lo) * .5 + np.where(nn.any(axis=0) | (interp == 'cubic'), 0.08 * scale, 0)
            ok |= (got >= lo - eps - slack) & (got <= hi + eps + slack) & ~nn.all(axis=0)
        ok |= np.isnan(got) & nn.any(axis=0)
    if not ok.all():
        j = tuple(map(int, np.argwhere(~ok)[0]))
        return (f'{int((~ok).sum())}/{ok.size} pixels wrong, first {j}: got {got[j]}, reference '
                f'{np.unique(V[(slice(None),) + j])[:4].tolist()}')
    return None


def run(case, ctx):
    import delayed_image as di
    leaf, op = case['leaf'], dict(case['op'])
    if isinstance(op['border_value'], list):
        op['border_value'] = tuple(op['border_value'])
    src = imgref.leaf_array(leaf).astype(float)
    isint = leaf['dtype'][0] != 'f'
    node0 = imgref.build_leaf(leaf, imgref.Env(ctx.scratch))
    if 'cat' in leaf:
        # the same as two parts
        k = leaf['cat']
        node0 = di.DelayedChannelConcat([node0.crop(None, list(range(k))), node0.crop(None, list(range(k, leaf['c'])))])
        ctx.count('concats')
    node = imgref.apply_op(node0, op)
    tf = imgref.coerce_tf(op['tf'])
    M = np.eye(3) if tf.matrix is None else np.asarray(tf).astype(float)
    dsize = tuple(op['dsize']) if 'dsize' in op else imgref.auto_dsize(M, (leaf['w'], leaf['h']))
    ctx.expect(tuple(node.dsize) == dsize, f'dsize {node.dsize}, expected {dsize}')
    bv = op['border_value']
    if bv == 'auto':
        bv = 0 if isint else np.nan
    elif bv == 'nan':
        bv = np.nan
    mode = 'constant'
    if isinstance(bv, str):
        # how the image continues beyond its border
        mode, bv = bv, 0
    interp = op['interpolation']
    smooth = is_smooth(op)
    full = node.finalize(optimize=False)
    dt = np.asarray(full).dtype
    ctx.expect(dt == np.dtype(leaf['dtype']), f'dtype {leaf["dtype"]} became {dt}')
    info = np.iinfo(leaf['dtype']) if isint else None
    clip = (info.min, info.max) if isint else None
    scale = max(1, src.max() - src.min())
    if smooth:
        V = None
        base = util.plain(full).astype(float)
    else:
        V, lo, hi = reference(src, M, dsize, interp, np.array(bv, dtype=float), clip, mode)
        e = judge(full, V, lo, hi, interp, isint, (slice(None), slice(None)), slice(None), scale)
        ctx.expect(e is None, f'full render: {e}')
        ctx.count(interp)
        e = judge(node.finalize(), V, lo, hi, interp, isint, (slice(None), slice(None)), slice(None), scale)
        ctx.expect(e is None, f'full optimized render: {e}')
        ctx.count(mode)
        ctx.count('fill_px', ((V == bv) | (np.isnan(V) & np.isnan(bv))).all(axis=0).sum())
        ctx.count('px', V[0].size)
    shapes = []
    for win in case['wins']:
        sl = (slice(*win['y']), slice(*win['x']))
        ch = win.get('chan', None)
        if win.get('open'):
            sl = open_slices(sl, dsize)
        sub = node[sl] if ch is None else node.crop(sl, ch)
        sl = (slice(*win['y']), slice(*win['x']))
        got = sub.finalize()
        cs = slice(None) if ch is None else ch
        if V is not None:
            e = judge(got, V, lo, hi, interp, isint, sl, cs, scale)
            if e is None and interp == 'nearest' and 'cat' not in leaf:
                # (cv2 breaks ties by the number of channels it is given)
                e = util.same(util.plain(got), util.plain(full)[sl][..., cs])
        else:
            e, n = same_window(got, base[sl][..., cs], isint, M, leaf, sl)
            ctx.count('smooth_px', n)
        ctx.expect(e is None, f'optimized window {win}: {e}')
        ctx.count('windows')
        ctx.count('continued_windows', mode != 'constant')
        hh, ww = util.plain(got).shape[:2]
        ctx.count('edge_px', 2 * (hh + ww))
        shapes.append((hh > 1, ww > 1, ch is not None))
    ctx.count('strips', max(dsize) > 160)
    ctx.count('smooth', smooth)
    ctx.distinct(sorted(op['tf']), interp, str(op['border_value'])[:3], leaf['kind'], leaf['dtype'], leaf['c'],
                 bool(smooth), shapes, 'dsize' in op)


def open_slices(sl, dsize):
    return tuple(slice(s.start or None, None if s.stop == n else s.stop) for s, n in zip(sl, dsize[::-1]))


def same_window(got, want, isint, M, leaf, sl):
    """
    antialiased (ramp content): pixels whose footprint is inside the leaf do
    not depend on the window they are part of
    """
    got = util.plain(got).astype(float)
    if got.shape != want.shape:
        return f'shape {got.shape} != {want.shape}', 0
    h, w = got.shape[:2]
    yy, xx = np.mgrid[0:h, 0:w]
    P = np.stack([xx.ravel() + sl[1].start + .5, yy.ravel() + sl[0].start + .5, np.ones(w * h)])
    q = np.linalg.inv(M) @ P
    lp = 1 / imgref.affine_scale(M).min()
    d = np.minimum.reduce([q[0], q[1], leaf['w'] - q[0], leaf['h'] - q[1]]).reshape(h, w)
    inside = d > 4 * lp + 4
    tol = 0.3 * max(1, lp) * (imgref.GX + imgref.GY) + (1.01 if isint else 1e-3)
    with np.errstate(invalid='ignore'):
        bad = inside[..., None] & ~(np.abs(got - want) <= tol)
    if bad.any():
        j = tuple(map(int, np.argwhere(bad)[0]))
        return (f'{int(bad.sum())}/{int(inside.sum())} pixels of the window differ from the full render, first {j}: '
                f'{got[j]} vs {want[j]} (tol {tol:.3g})'), int(inside.sum())
    return None, int(inside.sum())
