"""
Nodata.
"""
import numpy as np

from vmon import files, util

ID = 'P16'
TITLE = 'Nodata pixels are exactly the ones that come out nan or masked, everywhere'
RULE = ('loader: both read paths on files with nodata per band against the written arrays; tree: crops, selections, overviews, integral '
        'nearest warps, dequantize free concats of float / masked / raw parts against a numpy model of values and masks, optimized or not; '
        'distinct = distinct (mode, format, dtype, method, operations)')
QUICK, THOROUGH = 2400, 40000
REQUIRE = {'loader': 1500, 'tree': 700, 'nodata_px': 100000, 'masked': 500, 'levels': 100, 'concat': 200, 'beyond': 150, 'twin': 300, 'visible_fill': 30, 'twin_hidden': 10000, 'twin_shown': 100000, 'beyond_valid': 300, 'beyond_gone': 300, 'padded': 60, 'warped': 200}
ASSUMPTIONS = []

METHODS = [None, 'float', 'nan', 'auto', 'ma', 'ma', 'float']


def gen(R, i, tier):
    if i % 8 == 7:
        return {'mode': 'beyond', 'method': R.choice(['ma', 'ma', 'float']), 'n': R.choice([0, 0, 1, 2]), 'more': R.choice([1, 1, 2]), 'src': R.choice(['file', 'file', 'mem']),
                'h': R.randint(6, 90), 'w': R.randint(6, 90), 'c': R.randint(1, 5), 'dtype': R.choice(['int16', 'int32', 'float32']),
                'ops': [R.choice(['crop', 'shift', 'take', 'opt', 'concat']) for _ in range(R.choice([0, 0, 1, 2]))], 'frac': R.choice([.02, .2, .5]), 'seed': R.randint(0, 10 ** 6)}
    if i % 8 == 3:
        return {'mode': 'twin', 'n': R.choice([0, 1, 2]), 'h': R.randint(6, 120), 'w': R.randint(6, 120), 'c': R.randint(1, 6), 'dtype': R.choice(['int16', 'int32', 'float32', 'uint8', 'uint16', 'float64']),
                'ops': [R.choice(['crop', 'warp', 'warp', 'resize', 'over', 'take', 'opt', 'flip', 'concat']) for _ in range(R.randint(1, 5))], 'frac': R.choice([.0, .02, .2, .5]), 'fast': R.randint(0, 1), 'seed': R.randint(0, 10 ** 6)}
    if i % 2:
        spec = files.rand_spec(R, nodata=True, fmt=R.choice(['GTiff', 'GTiff', 'ENVI', 'HFA', 'VRT', 'COG']))
        reads = []
        for _ in range(R.randint(2, 5)):
            reads.append([R.choice(METHODS), R.randint(0, 1), R.randint(0, spec['overviews']), R.randint(0, 10 ** 6)])
        return {'mode': 'loader', 'spec': spec, 'reads': reads}
    parts = []
    family = R.choice(['float', 'ma', 'any'])
    n = R.choice([1, 1, 2, 3])
    dts = {'float': ['uint8', 'int16', 'float32'], 'ma': ['uint8', 'int16', 'float32'], 'any': ['uint8', 'int16', 'float32']}[family]
    dt = R.choice(dts)
    h, w = R.randint(4, 30), R.randint(4, 30)
    for _ in range(n):
        spec = files.rand_spec(R, nodata=True, fmt=R.choice(['GTiff', 'GTiff', 'GTiff', 'VRT']))
        spec['dtype'] = dt
        spec['h'], spec['w'] = h, w
        spec['c'] = R.randint(1, 4)
        vals = [0, 7, 255] if dt == 'uint8' else [0, -9999, 3]
        if dt == 'float32':
            vals.append(float('nan'))
        v = R.choice(vals)
        spec['nodata'] = [R.choice([None, v]) for _ in range(spec['c'])] if spec['fmt'] == 'VRT' else [v] * spec['c']
        spec['overviews'] = min(spec['overviews'], 2)
        method = {'float': R.choice(['float', 'nan', 'auto']), 'ma': 'ma', 'any': R.choice(METHODS)}[family]
        parts.append({'spec': spec, 'method': method, 'via': R.choice(['init', 'init', 'kw'] if n == 1 else ['init']),
                      'ops': rand_ops(R, R.randint(0, 3)), 'kind': R.choice(['file'] * 5 + ['nodata'])})
    return {'mode': 'tree', 'parts': parts, 'ops': rand_ops(R, R.randint(0, 3)), 'tag': i}


def rand_ops(R, n):
    return [[R.choice(['crop', 'crop', 'pad', 'take', 'over', 'shift', 'zoom', 'flip', 'opt']), R.randint(0, 10 ** 6)] for _ in range(n)]


def masks(spec, arr):
    """where a band holds its nodata value"""
    m = np.zeros(arr.shape, dtype=bool)
    for k, v in enumerate(spec['nodata'] or []):
        if v is None:
            continue
        m[:, :, k] = np.isnan(arr[:, :, k]) if v != v else arr[:, :, k] == v
    return m


def run(case, ctx):
    from delayed_image import lazy_loaders as L
    saved = L.GDAL_FAST_PATH
    made = []
    try:
        if case['mode'] == 'loader':
            run_loader(case, ctx, L, made)
        elif case['mode'] == 'beyond':
            run_beyond(case, ctx, made)
        elif case['mode'] == 'twin':
            run_twin(case, ctx, L, made)
        else:
            run_tree(case, ctx, L, made)
    finally:
        L.GDAL_FAST_PATH = saved
        for f in made:
            files.cleanup(f)


def run_loader(case, ctx, L, made):
    spec = case['spec']
    fpath, levels = files.write(spec, ctx.scratch)
    made.append(fpath)
    base = L.LazyGDalFrameFile(fpath)
    for method, fast, lev, rs in case['reads']:
        R = np.random.default_rng(rs)
        lev = min(lev, len(levels) - 1)
        L.GDAL_FAST_PATH = fast
        f = base.get_absolute_overview(lev) if rs % 2 else L.LazyGDalFrameFile(fpath, overview=lev)
        f.nodata_method = method
        arr = levels[lev]
        bad = masks(spec, arr)
        h, w, c = arr.shape
        y0, x0 = int(R.integers(0, h)), int(R.integers(0, w))
        y1, x1 = int(R.integers(y0, h)) + 1, int(R.integers(x0, w)) + 1
        chans = [int(v) for v in R.permutation(c)[:R.integers(1, c + 1)]] if rs % 3 else list(range(c))
        got = f[y0:y1, x0:x1, chans]
        if got.ndim == 2:
            got = got[:, :, None]
        arr, bad = arr[y0:y1, x0:x1][:, :, chans], bad[y0:y1, x0:x1][:, :, chans]
        label = f'{spec["fmt"]} {spec["dtype"]} nodata {spec["nodata"]} method {method} level {lev} fast {fast} bands {chans}'
        ctx.count('loader')
        ctx.count('nodata_px', bad.sum())
        if lev:
            ctx.count('levels')
        judge(ctx, label, got, arr, bad, method)
        ctx.distinct('loader', spec['fmt'], spec['dtype'], repr(spec['nodata']), method, fast, lev)


def run_beyond(case, ctx, made):
    """overviews that are not stored are made from data with nodata"""
    import os

    import delayed_image as di
    from osgeo import gdal
    R = np.random.default_rng(case['seed'])
    h, w, c, method = case['h'], case['w'], case['c'], case['method']
    arr = R.integers(100, 200, (h, w, c)).astype(case['dtype'])
    # scattered pixels and whole areas
    bad = R.random((h, w)) < case['frac']
    for _ in range(2):
        y, x = int(R.integers(0, h)), int(R.integers(0, w))
        bad[y:y + h // 2, x:x + w // 3] ^= True
    bad = np.repeat(bad[:, :, None], c, axis=2)
    arr[bad] = -9999
    names = '|'.join(f'c{k}' for k in range(c))
    n = case['n']
    if case['src'] == 'mem':
        n = 0
        data = np.ma.array(arr, mask=bad) if method == 'ma' else np.where(bad, np.nan, arr)
        node = di.DelayedIdentity(data, channels=names)
    else:
        fpath = os.path.join(ctx.scratch, f'beyond{os.getpid()}.tif')
        made.append(fpath)
        dt = {'int16': gdal.GDT_Int16, 'int32': gdal.GDT_Int32, 'float32': gdal.GDT_Float32}[case['dtype']]
        ds = gdal.GetDriverByName('GTiff').Create(fpath, w, h, c, dt)
        for k in range(c):
            ds.GetRasterBand(k + 1).WriteArray(np.ascontiguousarray(arr[:, :, k]))
            ds.GetRasterBand(k + 1).SetNoDataValue(-9999)
        ds = None
        if n:
            ds = gdal.Open(fpath, gdal.GA_Update)
            ds.BuildOverviews('NEAREST', [2 ** (j + 1) for j in range(n)])
            ds = None
        node = di.DelayedLoad(fpath, channels=names, nodata_method=method).prepare()
    sig = []
    for name in case['ops']:
        if name == 'crop' and min(h, w) > 12:
            y, x = int(R.integers(0, 6)), int(R.integers(0, 6))
            node, bad = node[y:, x:], bad[y:, x:]
        elif name == 'shift' and min(h, w) > 12:
            t = int(R.integers(1, 5))
            node = node.warp({'offset': (t, t)}, dsize=(bad.shape[1], bad.shape[0]), interpolation='nearest', antialias=False)
            new = np.ones_like(bad)
            new[t:, t:] = bad[:-t, :-t]
            bad = new
        elif name == 'take':
            node = node.take_channels(list(range(node.num_channels))[::-1])
        elif name == 'opt':
            node = node.optimize()
        elif name == 'concat' and c <= 2:
            node = di.DelayedChannelConcat([node, node])
            bad = np.concatenate([bad, bad], axis=2)
        sig.append(name)
    k = n + case['more']
    view = node.get_overview(k)
    f = 2 ** k
    for opt in (False, True):
        got = view.finalize(optimize=opt)
        if got.ndim == 2:
            got = got[:, :, None]
        label = f'optimize={opt}: overview {k} of {n} of {case["src"]} {case["dtype"]} {method} after {sig}'
        if not ctx.expect(got.shape[2] == bad.shape[2] and got.shape == tuple(view.shape), f'{label}: shape {got.shape} expected {view.shape}'):
            continue
        ctx.count('beyond')
        if method == 'ma':
            if not ctx.expect(isinstance(got, np.ma.MaskedArray), f'{label}: is a {type(got).__name__}'):
                continue
            gone = np.ma.getmaskarray(got)
            val = np.asarray(got.data)
        else:
            gone = np.isnan(got)
            val = got
        v = val[~gone]
        ctx.expect(v.size == 0 or v.min() >= 100 and v.max() <= 199, f'{label}: {int(((v < 100) | (v > 199)).sum())} of {v.size} shown pixels hold nodata, {v.min() if v.size else 0} to {v.max() if v.size else 0}')
        H, W = got.shape[:2]
        # (moved windows are resampled once more)
        g = f * (2 if opt and ('crop' in sig or 'shift' in sig) else 1)
        for y in range(H):
            for x in range(W):
                near = bad[max(0, y * f - g):y * f + f + g, max(0, x * f - g):x * f + f + g, 0]
                if near.size == 0:
                    continue
                if not near.any() and y * f + f + g <= bad.shape[0] and x * f + f + g <= bad.shape[1] and min(y, x) * f >= g:
                    ctx.count('beyond_valid')
                    ctx.expect(not gone[y, x].any(), f'{label}: pixel {y, x} of a valid area is hidden')
                elif near.all() and (g == f or min(y, x) * f >= g and y * f + f + g <= bad.shape[0] and x * f + f + g <= bad.shape[1]):
                    ctx.count('beyond_gone')
                    ctx.expect(gone[y, x].all(), f'{label}: pixel {y, x} of a nodata area is shown as {got[y, x]}')
    ctx.distinct('beyond', method, n, k, case['src'], case['dtype'], sig)


def run_twin(case, ctx, L, made):
    """a program on data with nodata as nan and on the same data masked agree"""
    import os

    import delayed_image as di
    from osgeo import gdal
    R = np.random.default_rng(case['seed'])
    h, w, c = case['h'], case['w'], case['c']
    arr = R.integers(100, 200, (h, w, c)).astype(case['dtype'])
    bad = R.random((h, w, c if R.random() < .5 else 1)) < case['frac']
    y, x = int(R.integers(0, h)), int(R.integers(0, w))
    bad[y:y + h // 2, x:x + w // 3] = True
    bad = np.broadcast_to(bad, arr.shape)
    nodata = 0 if case['dtype'][0] == 'u' else -9999
    arr[bad] = nodata
    names = '|'.join(f'c{k}' for k in range(c))
    fpath = os.path.join(ctx.scratch, f'twin{os.getpid()}.tif')
    made.append(fpath)
    dt = {'int16': gdal.GDT_Int16, 'int32': gdal.GDT_Int32, 'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64, 'uint8': gdal.GDT_Byte, 'uint16': gdal.GDT_UInt16}[case['dtype']]
    ds = gdal.GetDriverByName('GTiff').Create(fpath, w, h, c, dt, ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'])
    for k in range(c):
        ds.GetRasterBand(k + 1).WriteArray(np.ascontiguousarray(arr[:, :, k]))
        ds.GetRasterBand(k + 1).SetNoDataValue(nodata)
    ds = None
    if case['n']:
        ds = gdal.Open(fpath, gdal.GA_Update)
        ds.BuildOverviews('NEAREST', [2 ** (j + 1) for j in range(case['n'])])
        ds = None
    L.GDAL_FAST_PATH = case['fast']
    nodes = [di.DelayedLoad(fpath, channels=names, nodata_method=m).prepare() for m in ('float', 'ma')]
    sig = []
    stages = 0
    for name in case['ops']:
        W, H = nodes[0].dsize
        if name == 'crop' and min(H, W) > 3:
            y, x = int(R.integers(0, H // 2)), int(R.integers(0, W // 2))
            y1, x1 = int(R.integers(y + 1, H)) + 1, int(R.integers(x + 1, W)) + 1
            nodes = [n[y:y1, x:x1] for n in nodes]
        elif name in {'warp', 'resize'}:
            if H * W > 40000:
                continue
            kw = {'interpolation': 'linear', 'antialias': bool(R.integers(0, 2))}
            if R.random() < .3:
                # something visible is outside
                kw['border_value'] = 150
                ctx.count('visible_fill')
            if name == 'warp':
                tf = {'scale': [float(v) for v in R.choice([.25, .4, .5, .7, 1, 1, 1.3, 2], 2)], 'offset': [float(v) for v in np.round(R.uniform(-6, 6, 2), 2)]}
                if R.random() < .3:
                    tf['theta'] = float(R.uniform(-.5, .5))
                if tf['scale'] != [1, 1] and R.random() < .5:
                    tf['offset'] = 0
                elif R.random() < .4:
                    # (ties are broken differently in plain resizes)
                    kw['interpolation'] = 'nearest'
                nodes = [n.warp(tf, **kw) for n in nodes]
            else:
                dsize = (int(R.integers(2, 2 * W + 2)), int(R.integers(2, 2 * H + 2)))
                nodes = [n.resize(dsize, **kw) for n in nodes]
            name = f'{name} {"aa" * kw["antialias"]}'
            stages += 1
        elif name == 'flip':
            nodes = [n.warp(np.array([[-1.0, 0, W], [0, 1, 0], [0, 0, 1]]), dsize=(W, H)) for n in nodes]
            stages += 1
        elif name == 'over' and min(H, W) > 3:
            nodes = [n.get_overview(1) for n in nodes]
            stages += 1
        elif name == 'take':
            nodes = [n.take_channels(list(range(n.num_channels))[::-1]) for n in nodes]
        elif name == 'opt':
            nodes = [n.optimize() for n in nodes]
        elif name == 'concat' and nodes[0].num_channels <= 6:
            nodes = [di.DelayedChannelConcat([n, n]) for n in nodes]
        sig.append(name)
        if min(nodes[0].dsize) < 1:
            return
    ctx.distinct('twin', case['dtype'], case['n'], case['c'], sig)
    for opt in (False, True):
        a, b = (n.finalize(optimize=opt) for n in nodes)
        label = f'optimize={opt}: {case["dtype"]} {h}x{w}x{c} with {case["n"]} overviews, {sig}'
        ctx.count('twin')
        if not ctx.expect(isinstance(b, np.ma.MaskedArray) and not isinstance(a, np.ma.MaskedArray), f'{label}: {type(a).__name__} {type(b).__name__}'):
            continue
        if not ctx.expect(a.shape == b.shape, f'{label}: shapes {a.shape} {b.shape}'):
            continue
        ctx.expect(b.dtype == np.dtype(case['dtype']), f'{label}: masked data is {b.dtype}')
        na, nb = np.isnan(a), np.ma.getmaskarray(b)
        ctx.count('twin_hidden', na.sum())
        ctx.count('twin_shown', (~na).sum())
        ctx.expect((na == nb).all(), f'{label}: {int(na.sum())} pixels are nan but {int(nb.sum())} masked, {int((na != nb).sum())} differ')
        ok = ~na & ~nb
        if ok.any():
            err = np.abs(a[ok] - b.data[ok].astype(float)).max()
            tol = 1e-2 if np.dtype(case['dtype']).kind == 'f' else .51 * max(1, stages)
            ctx.expect(err <= tol, f'{label}: masked and nan values differ by {err}')


def judge(ctx, label, got, arr, bad, method):
    if method == 'ma':
        ctx.count('masked')
        if not ctx.expect(isinstance(got, np.ma.MaskedArray), f'{label}: got a {type(got).__name__}'):
            return
        if not ctx.expect(got.shape == arr.shape, f'{label}: shape {got.shape} expected {arr.shape}'):
            return
        ctx.expect(got.dtype == arr.dtype, f'{label}: dtype {got.dtype}')
        m = np.ma.getmaskarray(got)
        ctx.expect((m == bad).all(), f'{label}: {int((m != bad).sum())} mask values differ, {int(bad.sum())} pixels hold nodata and {int(m.sum())} are masked')
        ctx.expect(np.array_equal(got.data[~bad & ~m], arr[~bad & ~m], equal_nan=arr.dtype.kind == 'f'), f'{label}: valid values differ')
        return
    ctx.expect(not isinstance(got, np.ma.MaskedArray), f'{label}: got a masked array')
    if not ctx.expect(got.shape == arr.shape, f'{label}: shape {got.shape} expected {arr.shape}'):
        return
    if method is None:
        ctx.expect(got.dtype == arr.dtype, f'{label}: dtype {got.dtype}')
        ctx.expect(np.array_equal(got, arr, equal_nan=arr.dtype.kind == 'f'), f'{label}: raw values differ')
        return
    want = arr.astype(np.result_type(arr.dtype, np.float32))
    want[bad] = np.nan
    ctx.expect(got.dtype == want.dtype, f'{label}: dtype {got.dtype} expected {want.dtype}')
    nan = np.isnan(got)
    ctx.expect((nan == np.isnan(want)).all(), f'{label}: {int((nan != np.isnan(want)).sum())} pixels differ in being nan, {int(bad.sum())} hold nodata')
    ctx.expect(np.array_equal(got[~nan], want[~nan]), f'{label}: valid values differ')


class Model:
    """values and masks of a node; levels as long as they are those of a file"""

    def __init__(self, arr, bad, method, levels=None, lossy=False, reduced=False, warped=False):
        self.arr, self.bad, self.method, self.levels = arr, bad, method, levels
        # an inner warp moved data out of its window, which fused warps ignore
        self.lossy = lossy
        self.reduced = reduced
        self.warped = warped


def fill_of(m):
    """what lies outside: (value, masked)"""
    if m.method == 'ma':
        return 0, True
    if m.arr.dtype.kind == 'f':
        return np.nan, False
    return 0, False


def moved(m, ys, xs):
    """sample at integer positions, outside is fill"""
    h, w, c = m.arr.shape
    v, b = fill_of(m)
    arr = np.full((len(ys), len(xs), c), v, dtype=m.arr.dtype)
    bad = np.full((len(ys), len(xs), c), b)
    oy, ox = (ys >= 0) & (ys < h), (xs >= 0) & (xs < w)
    iy, ix = np.flatnonzero(oy), np.flatnonzero(ox)
    if len(iy) and len(ix):
        arr[np.ix_(iy, ix)] = m.arr[np.ix_(ys[iy], xs[ix])]
        bad[np.ix_(iy, ix)] = m.bad[np.ix_(ys[iy], xs[ix])]
    return Model(arr, bad, m.method, None, m.lossy, m.reduced, m.warped)


def apply(node, m, op, ctx, sig, uniform):
    """one operation on the node and on its model"""
    name, rs = op
    R = np.random.default_rng(rs)
    h, w, c = m.arr.shape
    if name == 'opt':
        return node.optimize(), m
    if name == 'crop':
        y0, x0 = int(R.integers(0, h)), int(R.integers(0, w))
        y1, x1 = int(R.integers(y0, h)) + 1, int(R.integers(x0, w)) + 1
        m = moved(m, np.arange(y0, y1), np.arange(x0, x1))
        m.lossy |= m.warped
        return node.crop((slice(y0, y1), slice(x0, x1))), m
    if name == 'pad':
        y0, x0 = (int(v) for v in R.integers(-6, 1, 2))
        y1, x1 = h + int(R.integers(0, 7)), w + int(R.integers(0, 7))
        if m.lossy or not uniform or m.arr.dtype.kind != 'f' and m.method != 'ma':
            return node, m
        ctx.count('padded')
        sig.append('pad')
        m = moved(m, np.arange(y0, y1), np.arange(x0, x1))
        m.warped = True
        return node.crop((slice(y0, y1), slice(x0, x1)), clip=False, wrap=False), m
    if name == 'take':
        if not uniform:
            return node, m
        idx = [int(v) for v in R.permutation(c)[:R.integers(1, c + 1)]]
        return node.take_channels(idx), Model(m.arr[:, :, idx], m.bad[:, :, idx], m.method, None, m.lossy, m.reduced, m.warped)
    if name == 'over':
        if not m.levels or len(m.levels) < 2:
            return node, m
        k = int(R.integers(1, len(m.levels)))
        sig.append('over')
        ctx.count('levels')
        return node.get_overview(k), Model(*m.levels[k], m.method, m.levels[k:], m.lossy, True)
    if m.method is None and m.arr.dtype.kind != 'f' or not uniform or name == 'shift' and m.lossy or name == 'zoom' and (m.reduced or h * w > 4000):
        return node, m
    ctx.count('warped')
    sig.append(name)
    if name == 'shift':
        ty, tx = (int(v) for v in R.integers(-5, 6, 2))
        m = moved(m, np.arange(h) - ty, np.arange(w) - tx)
        m.lossy = m.warped = True
        return node.warp({'offset': (tx, ty)}, dsize=(w, h), interpolation='nearest', antialias=False), m
    if name == 'zoom':
        s = int(R.integers(2, 4))
        m = moved(m, np.arange(h * s) // s, np.arange(w * s) // s)
        m.warped = True
        return node.warp({'scale': s}, dsize=(w * s, h * s), interpolation='nearest', antialias=False), m
    m = moved(m, np.arange(h), w - 1 - np.arange(w))
    m.warped = True
    return node.warp(np.array([[-1.0, 0, w], [0, 1, 0], [0, 0, 1]]), dsize=(w, h), interpolation='nearest', antialias=False), m


def run_tree(case, ctx, L, made):
    import delayed_image as di
    nodes, models, sig = [], [], []
    fast = case['tag'] // 2 % 2
    L.GDAL_FAST_PATH = fast
    finkw = {}
    for j, p in enumerate(case['parts']):
        spec = p['spec']
        method = p['method']
        psig = [spec['fmt'], method]
        if p['kind'] == 'nodata' and len(case['parts']) > 1:
            method = 'ma' if method == 'ma' else 'float'
            node = di.delayed_leafs.DelayedNodata((spec['w'], spec['h']), channels=f'n{j}', nodata_method=method)
            shape = (spec['h'], spec['w'], 1)
            m = Model(np.full(shape, 0 if method == 'ma' else np.nan, dtype='uint8' if method == 'ma' else 'float64'), np.ones(shape, dtype=bool), method)
            psig = ['nodata', method]
        else:
            fpath, levels = files.write(spec, ctx.scratch, tag=j)
            made.append(fpath)
            kw = {}
            if p['via'] == 'init':
                kw['nodata_method'] = method
            else:
                finkw['nodata_method'] = method
            chans = '|'.join(f'p{j}c{k}' for k in range(spec['c']))
            node = di.DelayedLoad(fpath, channels=chans, **kw).prepare()
            lv = []
            for a in levels:
                b = masks(spec, a)
                if method in {'float', 'nan', 'auto'}:
                    a = a.astype(np.result_type(a.dtype, np.float32))
                    a[b] = np.nan
                lv.append((a, b if method is not None else np.zeros_like(b)))
            m = Model(lv[0][0], lv[0][1], method, lv)
        for op in p['ops']:
            if p['kind'] == 'nodata' and op[0] in {'over'}:
                continue
            if p['via'] == 'kw' and op[0] == 'opt':
                continue
            node, m = apply(node, m, op, ctx, psig, True)
        nodes.append(node)
        models.append(m)
        sig.append(psig)
    h = min(m.arr.shape[0] for m in models)
    w = min(m.arr.shape[1] for m in models)
    if len(nodes) > 1:
        for j, (n, m) in enumerate(zip(nodes, models)):
            if m.arr.shape[:2] != (h, w):
                nodes[j] = n.crop((slice(0, h), slice(0, w)))
                models[j] = moved(m, np.arange(h), np.arange(w))
                models[j].lossy |= m.warped
        node = di.DelayedChannelConcat(nodes)
        ctx.count('concat')
        methods = {m.method for m in models}
        ma = 'ma' in methods
        m = Model(np.concatenate([v.arr for v in models], axis=2), np.concatenate([v.bad & (v.method == 'ma' or not ma) for v in models], axis=2), 'ma' if ma else 'float', None,
                  any(v.lossy for v in models), any(v.reduced for v in models), any(v.warped for v in models))
        uniform = methods <= {'float', 'nan', 'auto'} or methods == {'ma'} and len({v.arr.dtype for v in models}) == 1
        if not ma and m.arr.dtype.kind != 'f':
            m.method = None
    else:
        node, m = nodes[0], models[0]
        uniform = True
    for op in case['ops']:
        if finkw and op[0] == 'opt':
            continue
        node, m = apply(node, m, op, ctx, sig, uniform)
    ctx.count('tree')
    ctx.count('nodata_px', m.bad.sum())
    if m.method == 'ma':
        ctx.count('masked')
    ctx.distinct('tree', sig, case['parts'][0]['spec']['dtype'], fast, [o[0] for o in case['ops']])
    for opt in (False, True):
        try:
            got = node.finalize(optimize=opt, **finkw)
        except TypeError as ex:
            ctx.err(f'optimize={opt}: {ex}')
            continue
        if got.ndim == 2:
            got = got[:, :, None]
        label = f'optimize={opt}: {sig} then {[o[0] for o in case["ops"]]}'
        if not ctx.expect(got.shape == m.arr.shape, f'{label}: shape {got.shape} expected {m.arr.shape}'):
            continue
        ctx.expect(isinstance(got, np.ma.MaskedArray) == (m.method == 'ma'), f'{label}: a {type(got).__name__} for method {m.method}')
        g = got.data if isinstance(got, np.ma.MaskedArray) else got
        if uniform and len({v.arr.dtype for v in models}) == 1:
            ctx.expect(g.dtype == m.arr.dtype, f'{label}: dtype {g.dtype} expected {m.arr.dtype}')
        if m.method == 'ma':
            gb = np.ma.getmaskarray(got)
            ctx.expect((gb == m.bad).all(), f'{label}: {int((gb != m.bad).sum())} mask values differ, {int(m.bad.sum())} should be masked, {int(gb.sum())} are')
            ok = ~m.bad & ~gb
        else:
            ok = np.ones(g.shape, dtype=bool)
        e = np.array_equal(g[ok], m.arr[ok], equal_nan=g.dtype.kind == 'f' and m.arr.dtype.kind == 'f')
        if not e:
            d = np.argwhere(ok & ~((g == m.arr) | ((g != g) & (m.arr != m.arr))))
            j = tuple(d[0]) if len(d) else None
            ctx.err(f'{label}: {len(d)} of {g.size} values differ' + (f', first {j}: {g[j]} expected {m.arr[j]}' if j else ''))
