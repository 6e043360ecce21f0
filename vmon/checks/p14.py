"""
The lazy frame files behave as arrays.
"""
import os

import numpy as np

from vmon import files, util

ID = 'P14'
TITLE = 'Indexing a lazy frame file gives what indexing the whole array gives'
RULE = ('random sequences of reads (slices, integers, lists, ellipsis, negative and out of range) on GDAL (both read paths), rasterio '
        'and spectral readers of files with known content; distinct = distinct (reader, format, dtype, bands, level, forms of the index)')
QUICK, THOROUGH = 3200, 60000
REQUIRE = {'reads': 6000, 'gdal0': 1500, 'gdal1': 1500, 'rasterio': 500, 'spectral': 200, 'levels': 500, 'empty': 60, 'refused': 30}
ASSUMPTIONS = ['an integer index keeps its dimension and a single band may come as a 2-D array (documented behaviour of the readers)']


def rand_dim(R, n):
    k = R.choice(['slice'] * 5 + ['open', 'int', 'none', 'over', 'empty', 'neg'])
    a, b = sorted([R.randint(0, n), R.randint(0, n)])
    if k == 'slice':
        return ['slice', a, max(b, min(n, a + 1))]
    if k == 'open':
        return ['slice'] + R.choice([[None, b], [a, None], [None, None]])
    if k == 'int':
        return ['int', R.randint(-n, n - 1)]
    if k == 'none':
        return ['slice', None, None]
    if k == 'over':
        return ['slice', R.randint(-n - 4, n), n + R.randint(0, 9)]
    if k == 'empty':
        return ['slice', b, a]
    return ['slice', -R.randint(1, n), R.choice([None, -R.randint(1, n)])]


def rand_index(R, shape):
    h, w, c = shape
    dims = [rand_dim(R, h), rand_dim(R, w), rand_dim(R, c)]
    if R.random() < .4:
        dims[2] = ['list', [R.randint(0, c - 1) for _ in range(R.choice([0] + [R.randint(1, c + 1)] * 12))]]
        if R.random() < .7:
            dims[2][1] = list(dict.fromkeys(dims[2][1]))
    form = R.choice(['full', 'full', 'full', 'two', 'one', 'bare', 'ell', 'ell0', 'ell2', 'ell3', 'all'])
    return {'dims': dims, 'form': form, 'bad': R.random() < .04, 'none': R.random() < .15}


def gen(R, i, tier):
    fmt = None
    reader = R.choice(['gdal', 'gdal', 'gdal', 'rasterio', 'spectral'])
    if reader == 'spectral':
        fmt = 'ENVI'
    spec = files.rand_spec(R, fmt=fmt)
    if reader == 'rasterio' and spec['fmt'] == 'ENVI':
        spec['fmt'], spec['block'], spec['compress'], spec['external'] = 'GTiff', None, None, False
        spec['interleave'] = 'PIXEL'
    if reader == 'spectral':
        spec['c'] = R.choice([1, 2, 3, 5])
    reads = []
    for _ in range(R.randint(3, 8)):
        lev = R.randint(0, spec['overviews'])
        h, w = -(-spec['h'] // 2 ** lev), -(-spec['w'] // 2 ** lev)
        reads.append({'level': lev, 'via': R.choice(['rel', 'abs', 'chain', 'new']), 'fast': R.randint(0, 1), 'index': rand_index(R, (h, w, spec['c']))})
    return {'spec': spec, 'reader': reader, 'reads': reads, 'header': R.randint(0, 10 ** 6), 'prewarm': R.random() < .5}


def py(d):
    if d[0] == 'slice':
        return slice(d[1], d[2])
    if d[0] == 'int':
        return d[1]
    return list(d[1])


def keepdim(d, n):
    """the same index but keeping dimensions"""
    if d[0] == 'int':
        k = d[1] % n
        return slice(k, k + 1)
    return py(d)


def make_index(ix, shape, ell):
    full = slice(None)
    D = [py(d) for d in ix['dims']]
    K = [keepdim(d, n) for d, n in zip(ix['dims'], shape)]
    form = ix['form']
    if not ell and form.startswith('ell'):
        form = 'full'
    if form == 'full':
        return tuple(D), K, form
    if form == 'two':
        return (D[0], D[1]), [K[0], K[1], full], form
    if form == 'one':
        return (D[0],), [K[0], full, full], form
    if form == 'bare':
        if isinstance(D[0], (slice, int)):
            return D[0], [K[0], full, full], form
        return (D[0],), [K[0], full, full], form
    if form == 'ell':
        return (D[0], Ellipsis, D[2]), [K[0], full, K[2]], form
    if form == 'ell0':
        return (Ellipsis, D[2]), [full, full, K[2]], form
    if form == 'ell2':
        return (D[0], D[1], Ellipsis), [K[0], K[1], full], form
    if form == 'ell3':
        # an ellipsis that stands for no axis
        k = (len(str(D[0])) + len(str(D[2]))) % 4
        return tuple(D[:k]) + (Ellipsis,) + tuple(D[k:]), K, form
    return (Ellipsis if ell else full), [full, full, full], form


def run(case, ctx):
    from delayed_image import lazy_loaders as L
    spec = case['spec']
    fpath, levels = files.write(spec, ctx.scratch)
    saved = L.GDAL_FAST_PATH
    try:
        check(case, ctx, L, fpath, levels)
        header(case, ctx, L, fpath)
    finally:
        L.GDAL_FAST_PATH = saved
        files.cleanup(fpath)


def check(case, ctx, L, fpath, levels):
    spec, kind = case['spec'], case['reader']
    cls = {'gdal': L.LazyGDalFrameFile, 'rasterio': L.LazyRasterIOFrameFile, 'spectral': L.LazySpectralFrameFile}[kind]
    base = cls(fpath)
    n = len(levels) - 1
    if case['prewarm'] and kind == 'gdal':
        base._ds
    view = base
    cur = 0
    for r in case['reads']:
        lev = min(r['level'], n)
        f = base
        if kind == 'gdal':
            L.GDAL_FAST_PATH = r['fast']
            if r['via'] == 'rel':
                f = base.get_overview(lev) if lev else base
            elif r['via'] == 'abs':
                f = view.get_absolute_overview(lev)
            elif r['via'] == 'new':
                f = cls(fpath, overview=lev)
            else:
                if lev < cur:
                    view, cur = base, 0
                f = view = view.get_overview(lev - cur)
                cur = lev
            ctx.expect(f.num_overviews == n - lev, f'num_overviews {f.num_overviews} at level {lev} of {n}')
            ctx.expect(f.num_absolute_overviews == n, f'num_absolute_overviews {f.num_absolute_overviews} of {n}')
        else:
            lev = 0
        arr = levels[lev]
        label = f'{kind}{r["fast"] if kind == "gdal" else ""} {spec["fmt"]} {spec["dtype"]} level {lev}'
        ctx.expect(tuple(f.shape) == arr.shape, f'{label}: shape {f.shape} expected {arr.shape}')
        ctx.expect(f.ndim == 3 and np.dtype(f.dtype) == arr.dtype, f'{label}: {f.ndim} dimensions of {f.dtype}')
        ctx.expect(os.path.basename(fpath) in repr(f), f'{label}: repr {f!r}')
        ix = r['index']
        if ix['bad']:
            refuse(ctx, f, arr, ix, label)
            continue
        index, keep, form = make_index(ix, arr.shape, kind == 'gdal')
        want = arr[keep[0], keep[1]][:, :, keep[2]]
        if 0 in want.shape:
            ctx.count('empty')
        if 0 in want.shape and kind != 'gdal':
            # an empty selection of bands is only supported by the GDAL reader
            continue
        got = f[index]
        ctx.count('reads')
        ctx.count(kind + (str(r['fast']) if kind == 'gdal' else ''))
        if lev:
            ctx.count('levels')
        ctx.expect(isinstance(got, np.ndarray), f'{label}: a {type(got).__name__} for {index}')
        ctx.expect(got.dtype == arr.dtype, f'{label}[{index}]: dtype {got.dtype}')
        if got.ndim == 2 and want.shape[2] == 1:
            got = got[:, :, None]
        if got.shape != want.shape:
            ctx.err(f'{label}[{index}]: shape {got.shape} expected {want.shape}')
        elif not np.array_equal(got, want):
            ctx.err(f'{label}[{index}]: {int((got != want).sum())} of {want.size} values differ')
        # the result belongs to the caller
        if got.size and got.flags.writeable:
            got[...] = 1
        ctx.distinct(label, arr.shape[2], form, [d[0] for d in ix['dims']], r['via'])
    if kind == 'gdal':
        L.GDAL_FAST_PATH = case['header'] % 2
        got = np.asarray(base)
        got = got[:, :, None] if got.ndim == 2 else got
        ctx.expect(np.array_equal(got, levels[0]), 'the array of the whole file differs')
        # a reader beyond the stored levels refuses
        try:
            bad = cls(fpath, overview=n + 1)[0:1]
            ctx.err(f'level {n + 1} of {n} gave data of shape {bad.shape}')
        except Exception:
            ctx.count('refused')
    if spec['dtype'].startswith('u') and kind == 'gdal':
        ctx.expect(L._validate_nonzero_data(base) == bool(levels[0].any()), '_validate_nonzero_data disagrees with the data')


def refuse(ctx, f, arr, ix, label):
    """indices that numpy refuses give no data"""
    h, w, c = arr.shape
    for bad in ((slice(0, 2), slice(0, 2), slice(0, 1), slice(0, 1)), (slice(0, 2), slice(0, 2), slice(0, 1), 0), (slice(None), slice(None), [c]), h + 3, (slice(None), w + 1), (slice(None), slice(None), c), 'x', (slice(None), 1.5)):
        try:
            got = f[bad]
        except Exception:
            ctx.count('refused')
        else:
            if np.size(got):
                ctx.err(f'{label}[{bad}] gave data of shape {np.shape(got)}')
    try:
        f[::2]
    except Exception:
        pass
    else:
        got = f[::2]
        ctx.expect(np.array_equal(np.atleast_3d(got), arr[::2]), f'{label}[::2] is wrong')


def header(case, ctx, L, fpath):
    """the parser of ENVI headers"""
    import random
    R = random.Random(case['header'])
    want, lines = {}, ['ENVI']
    for j in range(R.randint(1, 8)):
        key = R.choice(['samples', 'lines', 'band names', 'wavelength', 'interleave', 'map info', 'description', f'k{j}'])
        if key in want:
            continue
        kind = R.choice(['plain', 'list', 'multi'])
        if key == 'description':
            text = R.choice(['a text', 'one, two', 'x = y'])
            lines.append(f'{key} = {{{text}}}')
            want[key] = text
        elif kind == 'plain':
            want[key] = R.choice(['12', 'bsq', '0.5 m'])
            lines.append(f'{key} = {want[key]}')
        else:
            want[key] = [R.choice(['a', 'b 1', '0.25']) for _ in range(R.randint(1, 4))]
            if kind == 'list':
                lines.append(f'{key} = {{{", ".join(want[key])}}}')
            else:
                body = ',\n  '.join(want[key])
                lines.append(f'{key} = {{\n  {body}}}')
        if R.random() < .3:
            lines.append(R.choice(['; a = comment', '', 'no assignment here']))
    p = os.path.join(ctx.scratch, f'h{os.getpid()}.hdr')
    with open(p, 'w') as file:
        file.write('\n'.join(lines) + '\n')
    got = L._read_envi_header(p)
    ctx.expect(got == want, f'header {lines} was read as {got}')
    with open(p, 'w') as file:
        file.write('\n'.join(lines[1:]) + '\n')
    try:
        L._read_envi_header(p)
        ctx.err('a header without the magic word was accepted')
    except Exception:
        ctx.count('refused')
    os.unlink(p)
