"""
Quantized images come back as the numbers they encode.
"""
import numpy as np

from vmon import imgref, util

ID = 'P10'
TITLE = 'Dequantized images hold the encoded numbers and never expose nodata'
RULE = ('quantization helpers are compared with exact formulas over dtypes, ranges and sentinels; trees that dequantize '
        'before or after crops, selections, concatenations, overviews and warps are compared with numpy; distinct = '
        'distinct (mode, dtype, ops, nodata presence)')
QUICK, THOROUGH = 3000, 80000
REQUIRE = {'values': 100000, 'nodata_px': 4000, 'roundtrip': 400, 'tree': 900, 'warped': 250, 'masked': 20000}
ASSUMPTIONS = ['linear warps over a nodata sentinel are judged optimized, or with the dequantize first']

IDT = ['uint8', 'int8', 'int16', 'uint16', 'int32', 'uint32']


def rand_q(R, dt):
    info = np.iinfo(dt)
    qmin = R.choice([0, 0, 1, info.min, 10, max(info.min, -100)])
    qmax = R.choice([info.max, 100, max(120, min(10000, info.max))])
    omin = R.choice([0, 0, -1, 1.5, -1000.25])
    omax = omin + R.choice([1, 1, 100, 0.001, 12345.5])
    q = {'orig_min': omin, 'orig_max': omax, 'quant_min': qmin, 'quant_max': qmax}
    q['orig_dtype'] = R.choice(['float32', 'float64'])
    q['nodata'] = R.choice([None, 0, info.min, info.max, max(-9999, info.min), 77, -9999, 255, 70000, 76.5])
    for k in ('orig_min', 'orig_max', 'quant_min', 'orig_dtype', 'nodata'):
        if R.random() < .1:
            del q[k]
    if R.random() < .03:
        q['quant_max'] = q.get('quant_min', 0)
    return q


def gen(R, i, tier):
    mode = ['formula', 'roundtrip', 'tree', 'tree'][i % 4]
    dt = R.choice(IDT)
    case = {'mode': mode, 'seed': R.randint(0, 10 ** 9), 'dt': dt}
    if mode == 'roundtrip':
        case['fdt'] = R.choice(['float32', 'float32', 'float64', 'float16', 'int32'])
        case['lo'] = R.choice([0, 0, -1, -5, 10])
        case['hi'] = case['lo'] + R.choice([1, 1, 2, 100])
    else:
        if mode == 'tree':
            dt = case['dt'] = R.choice(['uint8', 'int16', 'uint16', 'int16'])
        case['q'] = rand_q(R, dt)
    if mode == 'tree':
        case['gdal'] = R.random() < .4
        case['c'] = R.randint(1, 4)
        case['two'] = R.random() < .4
        ops = []
        for _ in range(R.randint(0, 4)):
            ops.append([R.choice(['crop', 'crop', 'take', 'nearest', 'overview', 'opt']), R.randint(0, 10 ** 6)])
        case['ops'] = ops
        case['pos'] = R.randint(0, len(ops))
        case['warp'] = R.choice([None, None, 'linear', 'nearest', 'aa'])
        case['wscale'] = round(R.uniform(.3, 2.5), 3)
        case['woff'] = round(R.uniform(-5, 5), 2)
        case['wrot'] = round(R.uniform(-1, 1), 2) if R.random() < .4 else 0
        case['overviews'] = R.choice([0, 1, 2])
        if case['gdal'] and R.random() < .4:
            # nodata of the file itself
            case['ma'] = R.choice([0, 1, 77, 50])
            case['warp'] = None
            case['ops'] = [o for o in case['ops'] if o[0] != 'overview']
            case['pos'] = R.randint(0, len(case['ops']))
    return case


def ref(arr, q):
    lo, hi = q.get('orig_min', 0), q.get('orig_max', 1)
    qlo, qhi = q.get('quant_min', 0), q['quant_max']
    s = 0 if qhi == qlo else (hi - lo) / (qhi - qlo)
    out = (arr.astype('float64') - qlo) * s + lo
    nod = q.get('nodata', None)
    bad = np.zeros(arr.shape, dtype=bool) if nod is None else (arr.astype('float64') == nod)
    out[bad] = np.nan
    return out, bad, abs(s)


def tol(q, arr, s):
    eps = np.finfo(q.get('orig_dtype', 'float32')).eps
    m = max(1, np.abs(arr.astype(float)).max() if arr.size else 1, abs(q.get('quant_min', 0)))
    return 4 * eps * (m * s + abs(q.get('orig_min', 0)) + abs(q.get('orig_max', 1)))


def content(R, dt, shape, q):
    info = np.iinfo(dt)
    arr = R.randint(info.min, info.max, size=shape, dtype=np.int64, endpoint=True) if False else \
        R.integers(info.min, info.max, size=shape, endpoint=True).astype(dt)
    narrow = R.random(shape) < .5
    arr = np.where(narrow, R.integers(0, 101, size=shape), arr).astype(dt)
    for v in (q.get('nodata'), q.get('quant_min'), q.get('quant_max')):
        if v is not None and info.min <= v <= info.max:
            arr[R.random(shape) < .08] = v
            # its neighbours are ordinary numbers
            for d in (-1, 1, -70, 70):
                if info.min <= v + d <= info.max:
                    arr[R.random(shape) < .02] = v + d
    return arr


def run(case, ctx):
    from delayed_image import helpers
    R = np.random.default_rng(case['seed'])
    if case['mode'] == 'formula':
        q = case['q']
        if case['seed'] % 7 == 0:
            # a marker that no integer equals
            q = dict(q, nodata=float(R.choice([np.nan, np.inf, -np.inf])))
        arr = content(R, case['dt'], (7, 9, 2), q)
        keep = arr.copy()
        nod = q.get('nodata')
        if nod is not None and case['seed'] % 2:
            # as a number of numpy
            q = dict(q, nodata=np.float32(nod) if abs(nod) < 2 ** 24 else np.float64(nod))
        got = helpers.dequantize(arr, q)
        want, bad, s = ref(arr, q)
        ctx.expect((arr == keep).all(), 'dequantize modified its input')
        ctx.expect(got.dtype == np.dtype(q.get('orig_dtype', 'float32')), f'dtype {got.dtype}')
        e = util.same(got, want, tol(q, arr, s))
        ctx.expect(e is None, f'{q} of {case["dt"]}: {e}')
        ctx.count('values', arr.size)
        ctx.count('nodata_px', bad.sum())
        ctx.distinct('formula', case['dt'], sorted(q), q.get('nodata'), q['quant_max'], q.get('quant_min'))
        return
    if case['mode'] == 'roundtrip':
        lo, hi = case['lo'], case['hi']
        fdt = np.dtype(case['fdt'])
        x = R.random((8, 9)) * (hi - lo) * 1.4 + lo - .2 * (hi - lo)
        x[0, :3] = [lo, hi, (lo + hi) / 2]
        x = x.astype(fdt)
        if fdt.kind == 'f':
            x[R.random(x.shape) < .15] = np.nan
            x[0, :2] = [lo, hi]
        keep = x.copy()
        quant, info = helpers.quantize_float01(x, lo, hi, np.dtype(case['dt']))
        ctx.expect(np.array_equal(x, keep, equal_nan=fdt.kind == 'f'), 'quantize modified its input')
        ctx.expect(quant.dtype == np.dtype(case['dt']), f'quantized dtype {quant.dtype}')
        none, info2 = helpers.quantize_float01(None, lo, hi, np.dtype(case['dt']))
        ctx.expect(none is None and info2 == info, 'the quantization does not depend on the data')
        nan = np.isnan(x.astype(float))
        ctx.expect(((quant == info['nodata']) == nan).all(), f'nodata {info["nodata"]} marks {int((quant == info["nodata"]).sum())} values, {int(nan.sum())} are nan')
        got = helpers.dequantize(quant, info | {'orig_dtype': 'float64'})
        want = x.astype(float).clip(lo, hi)
        step = (hi - lo) / (info['quant_max'] - info['quant_min'])
        e = util.same(got, want, step * 1.001 + 1e-9 * (abs(lo) + abs(hi)))
        ctx.expect(e is None, f'round trip {case["fdt"]} {case["dt"]} [{lo}, {hi}]: {e}')
        for v, k in ((lo, (0, 0)), (hi, (0, 1))):
            ctx.expect(abs(got[k] - v) <= 1e-6 * max(1, abs(v)), f'extreme {v} came back as {got[k]}')
        ctx.count('values', x.size)
        ctx.count('nodata_px', nan.sum())
        ctx.count('roundtrip')
        ctx.distinct('roundtrip', case['fdt'], case['dt'], lo, hi)
        return
    tree(case, ctx, R)


def tree(case, ctx, R):
    import delayed_image as di
    q = case['q']
    n = case['c']
    parts, arrs = [], []
    for p in range(2 if case['two'] else 1):
        arr = content(R, case['dt'], (37, 44, n), q)
        if case['gdal']:
            fpath = f'{ctx.scratch}/q{p}.tif'
            masked = case.get('ma')
            if masked is not None:
                arr[R.random(arr.shape) < .2] = masked
            imgref.write_tif(fpath, arr, overviews=case['overviews'], resample='NEAREST', block=16, nodata=masked)
            parts.append(di.DelayedLoad(fpath, nodata_method=None if masked is None else 'ma').prepare())
        else:
            parts.append(di.DelayedIdentity(arr))
        arrs.append(arr)
    node = di.DelayedChannelConcat(parts) if case['two'] else parts[0]
    arr = np.concatenate(arrs, axis=2)
    # overviews of gdal files decimate, elsewhere nearest is simulated
    exact = True
    done = False
    sig = []
    whole = np.arange(arr.shape[2])
    for j, (name, seed) in enumerate(case['ops'] + [['end', 0]]):
        if j == case['pos']:
            node = node.dequantize(q)
            done = True
        h, w, C = arr.shape
        rr = np.random.default_rng(seed)
        if name == 'crop':
            y0, x0 = rr.integers(0, max(1, h // 3)), rr.integers(0, max(1, w // 3))
            y1, x1 = h - rr.integers(0, max(1, h // 3)), w - rr.integers(0, max(1, w // 3))
            node = node[int(y0):int(y1), int(x0):int(x1)]
            arr = arr[y0:y1, x0:x1]
        elif name == 'take':
            idx = rr.permutation(C)[:rr.integers(1, C + 1)].tolist()
            node = node.take_channels(idx)
            arr = arr[:, :, idx]
            whole = whole[idx]
        elif name == 'nearest':
            node = node.warp({'scale': 2}, interpolation='nearest')
            arr = arr.repeat(2, axis=0).repeat(2, axis=1)
            if arr.shape[0] > 200:
                return
        elif name == 'overview':
            node = node.get_overview(1)
            arr = None
        elif name == 'opt':
            node = node.optimize()
        if arr is None:
            # which pixel is kept is up to the resampling, continue from there
            exact = False
            arr = None
            break
        sig.append(name)
    if not done:
        node = node.dequantize(q)
    if arr is None:
        # only the set of values is known
        full = np.concatenate(arrs, axis=2)
        vals, bad, s = ref(full, q)
        for which, f in (('', node.finalize(optimize=False)), ('optimized ', node.finalize())):
            f = util.plain(f).astype(float)
            ok = np.isnan(f) if bad.any() else np.zeros(f.shape, dtype=bool)
            if set(sig) & {'crop', 'nearest'}:
                # an odd crop of an overview is between its pixels
                vv = vals[~bad]
                if vv.size:
                    judge(ctx, f, np.array([vv.min(), vv.max()]).reshape(1, 2, 1), tol(q, full, s), 'linear', which + 'overview: ')
                continue
            sv = np.sort(vals[~bad].ravel())
            if sv.size:
                k = np.searchsorted(sv, f.ravel()).clip(0, sv.size - 1)
                near = np.minimum(np.abs(sv[k] - f.ravel()), np.abs(sv[(k - 1).clip(0)] - f.ravel())).reshape(f.shape)
                with np.errstate(invalid='ignore'):
                    ok |= near <= tol(q, full, s)
            ctx.expect(ok.all(), f'{which}{int((~ok).sum())} values of a dequantized overview are not values of the image: {f[~ok][:3].tolist()} {q}')
            ctx.count('values', f.size)
        ctx.count('tree')
        ctx.distinct('tree-ov', case['dt'], sig, case['gdal'], case['two'], case['pos'])
        return
    want, bad, s = ref(arr, q)
    ctx.count('nodata_px', bad.sum())
    ctx.count('tree')
    t = tol(q, np.concatenate(arrs, axis=2), s)
    masked = None
    if case.get('ma') is not None:
        masked = arr == case['ma']
        want[masked] = np.nan
        ctx.count('masked', masked.sum())
    for which, f in (('', node.finalize(optimize=False)), ('optimized ', node.finalize())):
        if masked is not None:
            ok = np.ma.isMaskedArray(f) and (np.ma.getmaskarray(f)[~np.isnan(want) | masked] == masked[~np.isnan(want) | masked]).all()
            ctx.expect(ok, f'{which}{sig} dequantize at {case["pos"]} {q}: the mask of the file is not the one of the dequantized image')
        e = util.same(f, want, t)
        ctx.expect(e is None, f'{which}{sig} dequantize at {case["pos"]} {q}: {e}')
        ctx.expect(f.dtype == np.dtype(q.get('orig_dtype', 'float32')), f'{which}dtype {f.dtype} {q}')
        ctx.count('values', f.size)
    if case['warp'] and min(arr.shape[:2]) > 4 and np.isfinite(want).any():
        C = arr.shape[2]
        interp = {'aa': 'linear'}.get(case['warp'], case['warp'])
        kw = {'interpolation': interp, 'antialias': case['warp'] == 'aa'}
        tf = {'scale': case['wscale'], 'offset': case['woff'], 'theta': case['wrot']}
        warped = node.warp(tf, dsize=(30, 32), **kw)
        raw = None
        if case.get('overviews') and 'crop' in sig:
            # pixels of an overview at the edge of a crop come from both sides of it
            want = ref(np.concatenate(arrs, axis=2)[:, :, whole], q)[0]
        if case['pos'] == 0 or not (set(sig) - {'opt'}):
            f = util.plain(warped.finalize(optimize=False)).astype(float)
            raw = f
            judge(ctx, f, want, t, interp, 'dequantize then warp: ')
        f = util.plain(warped.finalize()).astype(float)
        judge(ctx, f, want, t, interp, 'optimized dequantize then warp: ')
        ctx.count('warped')
    ctx.distinct('tree', case['dt'], sig, case['gdal'], case['two'], case['pos'], case['warp'], q.get('nodata') is not None)


def judge(ctx, f, want, t, interp, msg):
    """no interpolated value may involve the sentinel"""
    lo, hi = np.nanmin(want, axis=(0, 1)), np.nanmax(want, axis=(0, 1))
    over = 0
    eps = t + 1e-5 * (np.abs(lo) + np.abs(hi))
    with np.errstate(invalid='ignore'):
        bad = (f < lo - over - eps) | (f > hi + over + eps)
    ctx.expect(not bad.any(), f'{msg}{int(bad.sum())} values outside of the range of the valid data, e.g. '
               f'{f[bad][:3].tolist()} not in {lo.tolist()} {hi.tolist()}')
    ctx.count('values', f.size)
