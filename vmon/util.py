from __future__ import annotations

import hashlib

import numpy as np


def plain(a):
    """finalized data to a float array with nan for missing"""
    if isinstance(a, np.ma.MaskedArray):
        a = np.ma.filled(a.astype(float), np.nan)
    a = np.asarray(a)
    if a.ndim == 2:
        a = a[:, :, None]
    return a


def same(a, b, atol=0.0):
    a = plain(a).astype(float)
    b = plain(b).astype(float)
    if a.shape != b.shape:
        return f'shape {a.shape} != {b.shape}'
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        j = np.argwhere(na != nb)[0].tolist()
        return f'{int((na != nb).sum())} pixels are nan in only one, first {j}: {a[tuple(j)]} vs {b[tuple(j)]}'
    with np.errstate(invalid='ignore'):
        d = np.abs(a - b)
    d[na] = 0
    d[a == b] = 0
    if d.size and d.max() > atol:
        j = np.unravel_index(int(np.argmax(d)), d.shape)
        return f'{int((d > atol).sum())} pixels differ, worst {tuple(map(int, j))}: {a[j]} vs {b[j]} (tol {atol:.3g})'
    return None


def walk(node, seen=None):
    """every node object once (children after parents)"""
    if seen is None:
        seen = {}
    if id(node) in seen:
        return
    seen[id(node)] = node
    yield node
    for ch in node.children():
        yield from walk(ch, seen)


def canon(v):
    import kwimage
    import delayed_image as di
    if isinstance(v, kwimage.Affine):
        M = np.eye(3) if v.matrix is None else np.asarray(v.matrix, dtype=float)
        return ('affine', M.round(9).tolist())
    if isinstance(v, di.FusedChannelSpec):
        return ('chan', tuple(v.normalize().parsed))
    if isinstance(v, slice):
        return ('slice', canon(v.start), canon(v.stop), canon(v.step))
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, v.tolist())
    if isinstance(v, dict):
        return tuple(sorted((str(k), canon(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(canon(x) for x in v)
    if isinstance(v, (float, np.floating)):
        return 'nan' if v != v else round(float(v), 9)
    if isinstance(v, np.integer):
        return int(v)
    return repr(v) if not isinstance(v, (int, str, bool, type(None))) else v


def data_hash(a):
    h = hashlib.md5(np.ascontiguousarray(np.asarray(a)).tobytes())
    if isinstance(a, np.ma.MaskedArray):
        h.update(np.ma.getmaskarray(a).tobytes())
    return h.hexdigest()


def structure(node):
    """nested canonical description of a graph"""
    extra = None
    if hasattr(node, 'data') and isinstance(getattr(node, 'data'), np.ndarray):
        extra = data_hash(node.data)
    return (type(node).__name__, canon(node.meta), extra,
            tuple(structure(c) for c in node.children()))


def snapshot(node):
    """identity sensitive description of a graph, to detect any mutation"""
    out = []
    for n in walk(node):
        extra = None
        if hasattr(n, 'data') and isinstance(getattr(n, 'data'), np.ndarray):
            extra = data_hash(n.data)
        out.append((id(n), type(n).__name__, canon(n.meta), extra,
                    tuple(id(c) for c in n.children())))
    return out


def snapdiff(a, b):
    if a == b:
        return None
    if len(a) != len(b):
        return f'{len(a)} nodes became {len(b)}'
    for x, y in zip(a, b):
        if x != y:
            for name, u, v in zip(('identity', 'type', 'meta', 'data', 'children'), x, y):
                if u != v:
                    return f'{x[1]} node: {name} changed: {u!r:.300} -> {v!r:.300}'
    return 'changed'


def opnames(prog):
    """nested op names, used to count distinct programs"""
    if 'concat' in prog:
        base = ['concat'] + [opnames(p) for p in prog['concat']]
    else:
        base = [prog['leaf']['kind'], prog['leaf']['c'], bool(prog['leaf'].get('overviews'))]
    return base + [o['op'] for o in prog.get('ops', ())]


def nops(prog):
    return len(prog.get('ops', ())) + sum(nops(p) for p in prog.get('concat', ()))
