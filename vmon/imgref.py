"""
Reference model of delayed image programs.

A *program* is a JSON document.  ``build`` turns it into a real delayed_image
tree through the public API; ``model`` gives, independently of delayed_image,
what that tree is supposed to mean: output size, channel names, and for each
output channel where every output pixel comes from (an affine map from a leaf),
through which intermediate images it passed (clips), which border values may
show up there, and what its value is.

Leaf contents are "ramps": value = base + gx * x + gy * y at the *center*
coordinates of each leaf pixel (corner origin convention), so that any
geometric error shows up as a value error, whatever resampling was used.
"""
from __future__ import annotations

import math
import os

import numpy as np

GX = 1.0
GY = 1.7


# ---------------------------------------------------------------- leafs

def chan_base(leaf, k):
    # each (leaf, channel) gets a distinguishable constant
    return 2000.0 * (leaf.get('uid', 0) + 1) + 400.0 * k


def leaf_array(leaf):
    """Pixel content of a leaf (h, w, c)"""
    w, h, c = leaf['w'], leaf['h'], leaf['c']
    dtype = np.dtype(leaf.get('dtype', 'float32'))
    content = leaf.get('content', 'ramp')
    if content == 'ramp':
        yy, xx = np.mgrid[0:h, 0:w]
        ramp = GX * (xx + 0.5) + GY * (yy + 0.5)
        arr = np.stack([ramp + chan_base(leaf, k) for k in range(c)], axis=2)
        if dtype.kind in 'iu':
            arr = np.floor(arr)
    elif content == 'noise':
        rng = np.random.RandomState(leaf.get('seed', 0))
        if dtype.kind == 'f':
            arr = rng.rand(h, w, c) * 100
        elif dtype.kind == 'b':
            arr = rng.rand(h, w, c) > 0.5
        else:
            info = np.iinfo(dtype)
            lo, hi = max(info.min, -3000), min(info.max, 3000)
            arr = rng.randint(lo, hi + 1, size=(h, w, c))
        nod = leaf.get('nodata', None)
        if nod is not None:
            arr[rng.rand(h, w, c) < leaf.get('nodata_frac', 0.1)] = nod
    elif content == 'wild':
        # floats of every kind
        rng = np.random.RandomState(leaf.get('seed', 0))
        info = np.finfo(dtype)
        vals = [np.inf, -np.inf, np.nan, -0.0, info.max, info.min, info.tiny, info.eps, 1, -3.5]
        arr = np.where(rng.rand(h, w, c) < .5, rng.rand(h, w, c) * 100, rng.choice(vals, size=(h, w, c)))
    else:
        raise KeyError(content)
    return np.ascontiguousarray(arr.astype(dtype))


def write_tif(fpath, arr, overviews=0, resample='AVERAGE', nodata=None,
              block=None, interleave=None, driver='GTiff', compress=None):
    from osgeo import gdal
    gdal.UseExceptions()
    if arr.ndim == 2:
        arr = arr[:, :, None]
    h, w, c = arr.shape
    code = {
        'uint8': gdal.GDT_Byte, 'uint16': gdal.GDT_UInt16,
        'int16': gdal.GDT_Int16, 'uint32': gdal.GDT_UInt32,
        'int32': gdal.GDT_Int32, 'float32': gdal.GDT_Float32,
        'float64': gdal.GDT_Float64,
    }[arr.dtype.name]
    opts = []
    if driver == 'GTiff':
        if block:
            opts += ['TILED=YES', f'BLOCKXSIZE={block}', f'BLOCKYSIZE={block}']
        if interleave:
            opts += [f'INTERLEAVE={interleave}']
        if compress:
            opts += [f'COMPRESS={compress}']
    elif driver == 'ENVI':
        if interleave:
            opts += [f'INTERLEAVE={interleave}']
    ds = gdal.GetDriverByName(driver).Create(os.fspath(fpath), w, h, c, code, opts)
    for k in range(c):
        b = ds.GetRasterBand(k + 1)
        if nodata is not None:
            b.SetNoDataValue(nodata)
        b.WriteArray(np.ascontiguousarray(arr[:, :, k]))
    ds.FlushCache()
    if overviews:
        ds.BuildOverviews(resample, [2 ** (i + 1) for i in range(overviews)])
    ds.FlushCache()
    ds = None
    return fpath


class Env:
    """Holds scratch dir, and leafs of one program build (so leafs marked with
    the same key are the same object)"""

    def __init__(self, dpath):
        self.dpath = dpath
        self.shared = {}
        self.files = {}


def build_leaf(leaf, env):
    import delayed_image as di
    key = leaf.get('share', None)
    if key is not None and key in env.shared:
        return env.shared[key]
    kind = leaf['kind']
    chans = leaf.get('channels', None)
    if kind == 'ident':
        arr = leaf_array(leaf)
        if leaf.get('flat') and arr.shape[2] == 1:
            arr = arr[:, :, 0]
        node = di.DelayedIdentity(arr, channels=chans)
    elif kind == 'load':
        fpath = leaf_file(leaf, env)
        node = di.DelayedLoad(
            fpath, channels=chans, nodata_method=leaf.get('nodata_method', None))
        node = node.prepare()
    elif kind == 'nans':
        node = di.DelayedNans(dsize=(leaf['w'], leaf['h']), channels=chans or leaf['c'])
    elif kind == 'nodata':
        node = di.DelayedNodata(
            dsize=(leaf['w'], leaf['h']), channels=chans or leaf['c'],
            nodata_method=leaf.get('nodata_method', 'float'))
    else:
        raise KeyError(kind)
    if key is not None:
        env.shared[key] = node
    return node


def leaf_file(leaf, env):
    if 'fpath' in leaf:
        return leaf['fpath']
    ident = tuple(sorted((k, str(v)) for k, v in leaf.items() if k not in {'share', 'channels', 'nodata_method', 'kind'}))
    if ident not in env.files:
        i = len(env.files)
        fpath = os.path.join(env.dpath, f'leaf{os.getpid()}_{i}.tif')
        write_tif(fpath, leaf_array(leaf), overviews=leaf.get('overviews', 0),
                  nodata=leaf.get('nodata', None), block=leaf.get('block', None),
                  interleave=leaf.get('interleave', None), resample=leaf.get('resample', 'AVERAGE'))
        env.files[ident] = fpath
    return env.files[ident]


# ------------------------------------------------------------- building

def sl(pair):
    if pair is None:
        return slice(None)
    return slice(*pair)


def coerce_tf(tf):
    import kwimage
    if tf is None:
        return kwimage.Affine.eye()
    tf = dict(tf)
    for k in ('scale', 'offset', 'about'):
        if isinstance(tf.get(k, None), list):
            tf[k] = tuple(tf[k])
    return kwimage.Affine.coerce(tf)


CODES = {'nearest': 0, 'linear': 1, 'cubic': 2, 'lanczos': 4}


def warp_kwargs(op):
    kw = {k: op[k] for k in ('interpolation', 'antialias', 'border_value', 'noop_eps', 'backend') if k in op}
    if op.get('code'):
        # as a cv2 integer
        kw['interpolation'] = CODES[kw['interpolation']]
    bv = kw.get('border_value', None)
    if bv == 'nan':
        kw['border_value'] = float('nan')
    return kw


def apply_op(node, op):
    name = op['op']
    if name == 'crop':
        space = None if op.get('y', 0) == 'none' else (sl(op['y']), sl(op['x']))
        ch = op.get('chan', None)
        if op.get('via') == 'getitem':
            if ch is not None:
                return node[space + (ch,)]
            return node[space]
        kw = {'lazy': True} if op.get('lazy') else {}
        if ch is not None:
            return node.crop(space, ch, **kw)
        return node.crop(space, **kw)
    elif name == 'padcrop':
        pad = op.get('pad', 0)
        if isinstance(pad, list):
            pad = [tuple(p) if isinstance(p, list) else p for p in pad]
        ch = op.get('chan')
        if isinstance(ch, dict):
            ch = slice(*ch['slice'])
        return node.crop((sl(op['y']), sl(op['x'])), chan_idxs=ch, clip=False, wrap=False, pad=pad)
    elif name == 'warp':
        dsize = op.get('dsize', 'auto')
        if isinstance(dsize, list):
            dsize = tuple(dsize)
        tf = coerce_tf(op['tf'])
        kw = warp_kwargs(op)
        if op.get('lazy'):
            kw['lazy'] = True
        return node.warp(tf, dsize=dsize, **kw)
    elif name == 'scale':
        s = op['s']
        if isinstance(s, list):
            s = tuple(s)
        return node.scale(s, **warp_kwargs(op))
    elif name == 'resize':
        return node.resize(tuple(op['dsize']), **warp_kwargs(op))
    elif name == 'dequant':
        return node.dequantize(op['q'])
    elif name == 'overview':
        return node.get_overview(op['k'])
    elif name == 'take':
        kw = {}
        if 'policy' in op:
            kw['missing_channel_policy'] = op['policy']
        return node.take_channels(op['spec'], **kw)
    elif name == 'opt':
        return node.optimize()
    else:
        raise KeyError(name)


def build(prog, env):
    import delayed_image as di
    ops = list(prog.get('ops', ()))
    # parts with the same key are one node up to their first k operations
    key, k = prog.get('share', (None, 0))
    if key is not None and key in env.shared:
        node = env.shared[key]
    else:
        if 'concat' in prog:
            parts = [build(p, env) for p in prog['concat']]
            node = di.DelayedChannelConcat(parts)
        else:
            node = build_leaf(prog['leaf'], env)
        for op in ops[:k]:
            node = apply_op(node, op)
        if key is not None:
            env.shared[key] = node
    for op in ops[k:]:
        node = apply_op(node, op)
    return node


def prog_leafs(prog):
    if 'concat' in prog:
        for p in prog['concat']:
            yield from prog_leafs(p)
    else:
        yield prog['leaf']


# -------------------------------------------------------------- the model

class Chan:
    """What one output channel means"""
    __slots__ = ('leaf', 'k', 'M', 'clips', 'mul', 'add', 'kind', 'borders',
                 'tol', 'nan', 'nwarp', 'drift', 'wild', 'ovk', 'nearlp')

    def copy(self):
        new = Chan()
        for s in Chan.__slots__:
            v = getattr(self, s, 0)
            if isinstance(v, (list, set)):
                v = type(v)(v)
            setattr(new, s, v)
        return new


class Model:
    def __init__(self, dsize, chans, names, overviews=None):
        self.dsize = dsize
        self.chans = chans
        self.names = names  # None or list
        self.overviews = overviews

    @property
    def shape(self):
        return (self.dsize[1], self.dsize[0], len(self.chans))


def _expand(spec):
    """Channel spec string to list of atomic names (reference)"""
    if spec is None:
        return None
    alias = {'rgb': 'r|g|b', 'rgba': 'r|g|b|a', 'dxdy': 'dx|dy', 'fxfy': 'fx|fy'}
    out = []
    for tok in spec.split('|'):
        if tok in alias:
            out += alias[tok].split('|')
        elif ':' in tok:
            root, rest = (tok.split('.', 1) if '.' in tok else tok.split(':', 1))
            nums = [int(t) for t in rest.split(':')]
            rng = range(nums[0]) if len(nums) == 1 else range(*nums)
            out += [f'{root}.{i}' for i in rng]
        else:
            out.append(tok)
    return out


def affine_scale(M):
    """largest downscaling (>1 means root px covers several leaf px)"""
    A = M[:2, :2]
    s = np.linalg.svd(A, compute_uv=False)
    return s


def leaf_model(leaf):
    chans = []
    names = leaf.get('channels', None)
    if isinstance(names, int):
        names = None
    names = _expand(names)
    for k in range(leaf['c']):
        c = Chan()
        c.leaf = leaf
        c.k = k
        c.M = np.eye(3)
        c.clips = [(np.eye(3), leaf['w'], leaf['h'])]
        c.mul = 1.0
        c.add = 0.0
        dt = np.dtype(leaf.get('dtype', 'float32'))
        c.nan = leaf['kind'] in {'nans', 'nodata'}
        c.kind = 'f' if c.nan or leaf.get('nodata_method') in {'float', 'auto'} else dt.kind
        c.borders = set()
        c.drift = 0.0
        c.tol = 0.0   # accumulated uncertainty, in leaf value units
        if dt.kind in 'iu' and not c.nan:
            c.tol = 1.0
        c.nwarp = 0
        c.wild = False
        # size mismatch between a level of the pyramid and the exact scale
        for i in range(1, (leaf.get('overviews', 0) if leaf['kind'] == 'load' else 0) + 1):
            f = 2 ** i
            dx = -(-leaf['w'] // f) * f - leaf['w']
            dy = -(-leaf['h'] // f) * f - leaf['h']
            c.drift = max(c.drift, GX * dx + GY * dy)
        chans.append(c)
    return Model((leaf['w'], leaf['h']), chans, names, leaf.get('overviews', 0) if leaf['kind'] == 'load' else None)


def auto_dsize(M, dsize):
    w, h = dsize
    pts = np.array([[0, 0, 1], [w, 0, 1], [0, h, 1], [w, h, 1]])
    b = (M[:2] @ pts.T).T.max(axis=0)
    return (max(0, int(math.ceil(b[0]))), max(0, int(math.ceil(b[1]))))


def warp_model(m, M, dsize, kw, interp='linear'):
    if dsize == 'auto':
        dsize = auto_dsize(M, m.dsize)
    dsize = tuple(int(d) for d in dsize)
    new = []
    bvs = kw.get('border_value', 'auto')
    for ci, c in enumerate(m.chans):
        c = c.copy()
        c.nwarp += 1
        c.wild |= interp in {'cubic', 'lanczos'}
        before = c.M
        c.M = M @ c.M
        c.clips = [(M @ N, w, h) for (N, w, h) in c.clips]
        c.clips.append((np.eye(3), dsize[0], dsize[1]))
        bv = bvs[ci] if isinstance(bvs, (list, tuple)) else bvs
        if bv == 'auto' and c.kind == 'm':
            # integer part concatenated with a float part
            c.borders.add(('v', 0.0, c.mul, c.add))
            b = np.nan
        elif bv == 'auto':
            b = np.nan if c.kind == 'f' else 0
        elif bv == 'nan' or bv is None:
            b = np.nan
        else:
            b = bv
        c.borders.add(('v', None if b != b else float(b), c.mul, c.add))
        if c.kind in 'ium':
            c.tol += 1.0
        lp = max(1.0, 1.0 / max(1e-9, affine_scale(c.M).min()))
        if interp == 'nearest':
            # positional uncertainty of 1 px of the input or of the output
            lp = max(lp, 1.0 / max(1e-9, affine_scale(before).min()))
            c.tol += abs(c.mul) * lp * (GX + GY) * 1.15
            c.nearlp = max(c.nearlp, lp)
        elif c.nearlp and lp > c.nearlp:
            # (the optimizer may move a later reduction below it)
            c.tol += abs(c.mul) * (lp - c.nearlp) * (GX + GY) * 1.15
            c.nearlp = lp
        new.append(c)
    return Model(dsize, new, m.names, m.overviews)


def crop_window(pair, D):
    """numpy semantics of a slice"""
    s = sl(pair)
    a, b, st = s.indices(D)
    assert st == 1
    return a, max(a, b)


def model_op(m, op):
    name = op['op']
    if name == 'crop':
        w, h = m.dsize
        if op.get('y', 0) == 'none':
            y0, y1, x0, x1 = 0, h, 0, w
        else:
            y0, y1 = crop_window(op['y'], h)
            x0, x1 = crop_window(op['x'], w)
        ch = op.get('chan', None)
        idx = list(range(len(m.chans))) if ch is None else list(np.arange(len(m.chans))[ch])
        T = np.array([[1, 0, -x0], [0, 1, -y0], [0, 0, 1.]])
        dsize = (x1 - x0, y1 - y0)
        new = []
        for i in idx:
            c = m.chans[i].copy()
            c.M = T @ c.M
            c.clips = [(T @ N, cw, chh) for (N, cw, chh) in c.clips]
            c.clips.append((np.eye(3), dsize[0], dsize[1]))
            new.append(c)
        names = None if m.names is None else [m.names[i] for i in idx]
        return Model(dsize, new, names, m.overviews)
    elif name == 'padcrop':
        w, h = m.dsize
        pad = op.get('pad', 0)
        if not isinstance(pad, list):
            pad = [pad, pad]
        pad = [tuple(p) if isinstance(p, list) else (p, p) for p in pad]
        ys, xs = sl(op['y']), sl(op['x'])
        y0 = (0 if ys.start is None else ys.start) - pad[0][0]
        y1 = (h if ys.stop is None else ys.stop) + pad[0][1]
        x0 = (0 if xs.start is None else xs.start) - pad[1][0]
        x1 = (w if xs.stop is None else xs.stop) + pad[1][1]
        T = np.array([[1, 0, -x0], [0, 1, -y0], [0, 0, 1.]])
        # only becomes a warp when something is actually padded
        return warp_model(m, T, (x1 - x0, y1 - y0), {})
    elif name in {'warp', 'scale', 'resize'}:
        if name == 'warp':
            dsize = op.get('dsize', 'auto')
            A = coerce_tf(op['tf'])
        elif name == 'scale':
            dsize = 'auto'
            A = coerce_tf({'scale': op['s']})
        else:
            dsize = op['dsize']
            A = coerce_tf({'scale': [dsize[0] / m.dsize[0], dsize[1] / m.dsize[1]]})
        M = np.asarray(A).astype(float) if A.matrix is not None else np.eye(3)
        if isinstance(dsize, list):
            dsize = tuple(dsize)
        return warp_model(m, M, dsize, op, op.get('interpolation', 'linear'))
    elif name == 'dequant':
        q = op['q']
        new = []
        for c in m.chans:
            c = c.copy()
            if q is None:
                new.append(c)
                continue
            omin, omax = q.get('orig_min', 0), q.get('orig_max', 1)
            qmin, qmax = q.get('quant_min', 0), q['quant_max']
            s = 0 if qmax == qmin else (omax - omin) / (qmax - qmin)
            c.mul, c.add = c.mul * s, (c.add - qmin) * s + omin
            nb = set()
            for (_, b, mu, ad) in c.borders:
                # either the border was made before (then it is mapped) or,
                # when the dequantize is moved under the warp, after
                nb.add(('v', b if b is None else (b - qmin) * s + omin, mu, ad))
                nb.add(('v', b, mu, ad))
                nb.add(('v', None, mu, ad))
            c.borders = nb
            c.tol = c.tol * abs(s)
            c.kind = 'f'
            new.append(c)
        return Model(m.dsize, new, m.names, m.overviews)
    elif name == 'overview':
        k = op['k']
        w, h = m.dsize
        sf = 1 / 2 ** k
        M = np.diag([sf, sf, 1.])
        dsize = (int(math.ceil(w * sf)), int(math.ceil(h * sf)))
        new = warp_model(m, M, dsize, {})
        for c in new.chans:
            # overviews are integer sized, real overviews of odd sized images
            # and simulated (nearest) ones are only approximately aligned
            # (the optimizer may apply them below a magnification)
            c.ovk += k
            lp = max(1.0 / max(1e-9, affine_scale(c.M).min()), 2.0 ** c.ovk if c.ovk > k or k > 1 else 0)
            c.tol += abs(c.mul) * 1.5 * lp * (GX + GY)
        if m.overviews is not None:
            new.overviews = m.overviews - k
        return new
    elif name == 'take':
        spec = op['spec']
        if isinstance(spec, list):
            idx = spec
            names = None if m.names is None else [m.names[i] for i in idx]
            return Model(m.dsize, [m.chans[i].copy() for i in idx], names, m.overviews)
        want = _expand(spec)
        chans = []
        for n in want:
            if n in m.names:
                chans.append(m.chans[m.names.index(n)].copy())
            else:
                c = leaf_model({'kind': 'nans', 'w': m.dsize[0], 'h': m.dsize[1], 'c': 1}).chans[0]
                chans.append(c)
        mix_kinds(chans)
        return Model(m.dsize, chans, want, m.overviews)
    elif name == 'opt':
        return m
    raise KeyError(name)


def mix_kinds(chans):
    # an integer channel stacked with a float channel becomes a float, so its
    # implicit border depends on when the stacking happens
    if len({c.kind for c in chans}) > 1:
        for c in chans:
            if c.kind in 'iu':
                c.kind = 'm'


def model(prog):
    if 'concat' in prog:
        parts = [model(p) for p in prog['concat']]
        dsize = parts[0].dsize
        assert all(p.dsize == dsize for p in parts)
        chans = [c.copy() for p in parts for c in p.chans]
        mix_kinds(chans)
        names = None
        if all(p.names is not None for p in parts):
            names = [n for p in parts for n in p.names]
        ovs = {p.overviews for p in parts}
        m = Model(dsize, chans, names, ovs.pop() if len(ovs) == 1 else None)
    else:
        m = leaf_model(prog['leaf'])
    for op in prog.get('ops', ()):
        m = model_op(m, op)
    return m


# ------------------------------------------------------------- the oracle

def _border_ok(c, got):
    """ which values are (a blend of) allowed border values """
    if c.wild:
        # OpenCV produces arbitrary values around nan with cubic and lanczos
        return np.ones(got.shape, dtype=bool)
    ok = np.zeros(got.shape, dtype=bool)
    finite = [b for (_, b, _, _) in c.borders if b is not None]
    if len(finite) < len(c.borders):
        ok |= np.isnan(got)
    if finite:
        lo, hi = min(finite), max(finite)
        eps = 1e-4 * max(1, abs(lo), abs(hi))
        ok |= (got >= lo - eps) & (got <= hi + eps)
    return ok


def check_final(m, final, margin=3.0, rtol_px=0.12):
    """
    Compare real output with the model.

    Returns (errors, stats): errors is a list of strings.
    """
    errs = []
    stats = {'inside': 0, 'deep': 0, 'outside': 0, 'mixed': 0, 'skipped': 0}
    final = np.ma.filled(final.astype(float), np.nan) if isinstance(final, np.ma.MaskedArray) else np.asarray(final)
    want = m.shape
    if final.ndim == 2 and want[2] == 1:
        final = final[:, :, None]
    if final.shape != want:
        return [f'shape {final.shape} != expected {want}'], stats
    h, w, _ = want
    if h == 0 or w == 0:
        return errs, stats
    yy, xx = np.mgrid[0:h, 0:w]
    P = np.stack([xx.ravel() + 0.5, yy.ravel() + 0.5, np.ones(h * w)])
    cache = {}
    for ci, c in enumerate(m.chans):
        got = final[:, :, ci].ravel().astype(float)
        if c.nan:
            # explicit fill values of a warp may show up around the nans
            okb = _border_ok(c, got) | np.isnan(got)
            if not okb.all():
                errs.append(f'channel {ci}: expected all nan, {int((~np.isnan(got)).sum())} finite')
            stats['inside'] += got.size
            continue
        key = (c.leaf.get('uid'), c.M.tobytes(), len(c.clips), tuple(N.tobytes() for N, _, _ in c.clips))
        if key not in cache:
            inv = np.linalg.inv(c.M)
            inside = np.ones(h * w, dtype=bool)
            deep = np.ones(h * w, dtype=bool)
            clip_out = np.zeros(h * w, dtype=bool)
            near = np.zeros(h * w, dtype=bool)
            out_leaf = None
            for si, (N, cw, chh) in enumerate(c.clips):
                p = np.linalg.inv(N) @ P
                # px of this stage covered by one px of each later stage
                fs = [max(1.0, 1.0 / max(1e-9, affine_scale(N).min()))]
                for (N2, _, _) in c.clips[si + 1:]:
                    f2 = 1.0 / max(1e-9, affine_scale(np.linalg.inv(N2) @ N).min())
                    fs.append(max(1.0, f2))
                # values are right beyond the support of the widest filter, but
                # nans (and tails of fill values) spread through each filter
                mg = margin * max(fs) + 2
                far = 1.5 * margin * sum(fs) + 4
                # an optimized tree clips on the pixel grid of the leaf
                far += 3 * max(1.0, affine_scale(np.linalg.inv(N) @ c.M).max())
                d = np.minimum.reduce([p[0], p[1], cw - p[0], chh - p[1]])
                inside &= d >= mg
                deep &= d >= far
                out = d <= -far
                if si == 0:
                    out_leaf = out
                else:
                    clip_out |= out
                near |= (d > -far) & (d < mg)
            q = inv @ P
            ramp = GX * q[0] + GY * q[1]
            cache[key] = (inside, deep, out_leaf, clip_out & ~near & ~out_leaf, ramp)
        inside, deep, out_leaf, mixed, ramp = cache[key]
        exp = (ramp + chan_base(c.leaf, c.k)) * c.mul + c.add
        lp = 1.0 / max(1e-9, affine_scale(c.M).min())  # leaf px per root px
        # the coarsest grid the pixels pass through
        lp *= max([1.0] + [float(affine_scale(N).max()) for (N, _, _) in c.clips])
        # each resampling positions within 1/32 px
        tol = c.tol + abs(c.mul) * (c.drift + rtol_px * (2 if c.wild else 1) * max(1, c.nwarp) * max(1.0, lp)) + 2e-6 * (np.abs(exp).max() + abs(c.add))
        ok_in = np.abs(got - exp) <= tol
        bad = inside & ~ok_in & (deep | (~np.isnan(got) & (not c.wild)))
        stats['inside'] += int(inside.sum())
        stats['deep'] += int(deep.sum())
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            errs.append(
                f'channel {ci}: {int(bad.sum())}/{int(inside.sum())} interior pixels wrong, first at '
                f'(row={j // w}, col={j % w}): got {got[j]!r} expected {exp[j]!r} tol {tol:.3g}')
        okb = _border_ok(c, got)
        bad = out_leaf & ~okb
        stats['outside'] += int(out_leaf.sum())
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            errs.append(
                f'channel {ci}: {int(bad.sum())} pixels outside the source do not hold a border value, first at '
                f'(row={j // w}, col={j % w}): got {got[j]!r}, allowed {sorted(str(b[1]) for b in c.borders)}')
        # (a border inside of a clipped region may be blended)
        fills = [b[1] for b in c.borders if b[1] is not None]
        blend = bool(fills) & (got >= np.minimum(exp, min(fills + [np.inf])) - tol) & (got <= np.maximum(exp, max(fills + [-np.inf])) + tol)
        bad = mixed & ~(okb | blend | (np.abs(got - exp) <= 3 * tol))
        stats['mixed'] += int(mixed.sum())
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            errs.append(
                f'channel {ci}: {int(bad.sum())} clipped pixels hold neither a border value nor the true value, first at '
                f'(row={j // w}, col={j % w}): got {got[j]!r} expected {exp[j]!r} or {sorted(str(b[1]) for b in c.borders)}')
        stats['skipped'] += int((~inside & ~out_leaf & ~mixed).sum())
    return errs, stats
