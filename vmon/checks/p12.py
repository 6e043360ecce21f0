"""
Undoing warps: the position model, extended with the returned warp, judges the
undone images.
"""
import numpy as np

from vmon import imggen, imgref, util

ID = 'P12'
TITLE = 'Undoing warps gives the images in their native resolution, and says how'
RULE = ('undo_warp / undo_warps with remove, retain, squash_nans and return_warps on random chains and concatenations; '
        'distinct = distinct (operations, retained components)')
QUICK, THOROUGH = 700, 15000
REQUIRE = {'refused': 100, 'undone': 1000, 'px_inside': 100000, 'exact_px': 30000, 'squashed': 20, 'components': 400}
ASSUMPTIONS = ['OpenCV resampling positions are trusted to 1/8 px per stage']
KEYS = ['offset', 'scale', 'shearx', 'theta']
CFG = {'p_kw': 0.1, 'weights': [4, 1.0, 4, 2, 1.5, 0.5, 0.3, 0.4, 0.5, 0.5], 'nops': [1, 5], 'p_unnamed': 0.1, 'min_size': 8}


def gen(R, i, tier):
    kind = ['chain', 'concat', 'chain', 'concat', 'optconcat', 'linear'][i % 6]
    t = R.random()
    if t < .35:
        mode = {}
    elif t < .5:
        mode = {'retain': ['offset']}
    elif t < .75:
        mode = {'retain': R.sample(KEYS, R.randint(0, 4))}
    else:
        mode = {'remove': R.sample(KEYS, R.randint(1, 4))}
    cfg = dict(CFG)
    if kind == 'linear':
        # full undos must be exact here
        cfg.update(weights=[4, 1, 5, 2, 2, 0, 0, 0, 1, .5], p_kw=0, dtypes=['float32'])
        mode = {}
    for _ in range(300):
        if kind in {'chain', 'linear'}:
            prog = imggen.rand_prog(R, cfg, depth=0)
        else:
            cfg2 = dict(cfg, nops_outer=[0, 0] if kind == 'concat' else [0, 3], p_nanpart=0.4)
            prog = imggen.rand_prog(R, cfg2, depth=1)
        m = imgref.model(prog)
        if all(ok_undo(c) for c in m.chans):
            break
    else:
        raise AssertionError
    return {'kind': kind, 'prog': prog, 'mode': mode, 'squash': R.random() < .5, 'warps': R.random() < .8}


def ok_undo(c):
    """ the undone image must have a sane size """
    if c.nan:
        return True
    s = imgref.affine_scale(c.M)
    return s.min() > 0.12 and s.max() < 6


def mat(T):
    import kwimage
    M = kwimage.Affine.coerce(T).matrix
    return np.eye(3) if M is None else np.asarray(M, dtype=float)


def judge(ctx, case, part, m, undone, W, squash, label):
    """ part: the original part, m its model """
    ctx.count('undone')
    isnans = type(undone).__name__ in {'DelayedNans', 'DelayedNodata'}
    if isnans and squash:
        ctx.count('squashed')
        ctx.expect(tuple(undone.dsize) == (1, 1), f'{label}: squashed nans have size {undone.dsize}')
        f = util.plain(undone.finalize())
        ctx.expect(f.shape == (1, 1, part.num_channels) and np.isnan(f).all(), f'{label}: squashed nans render {f.shape}')
        if W is not None:
            w, h = part.dsize
            C = mat(W) @ np.array([[0, 0, 1], [w, 0, 1], [0, h, 1], [w, h, 1.]]).T
            ctx.expect((C[:2].max(axis=1) < 1 + 1e-6).all() and (C[:2].max(axis=1) > 0).all(), f'{label}: the warp of squashed nans maps the image to {C.T.round(3).tolist()}')
            c = mat(W) @ [*part.dsize, 1]
            o = mat(W) @ [0, 0, 1]
            # the linear part of the image is mapped onto the one pixel
            T = mat(part.get_transform_from_leaf())
            if not set(case['mode'].get('retain', ())) and 'remove' not in case['mode'] and np.abs(T - np.eye(3)).max() < 1e-9:
                ctx.expect(np.abs(c - [1, 1, 1]).max() < 1e-6 and np.abs(o - [0, 0, 1]).max() < 1e-6, f'{label}: the warp of squashed nans maps the image to {o} {c}')
        return
    f = util.plain(undone.finalize())
    ctx.expect(f.shape == tuple(undone.shape), f'{label}: undone shape {undone.shape} but data {f.shape}')
    ctx.expect(undone.num_channels == part.num_channels, f'{label}: {part.num_channels} channels became {undone.num_channels}')
    ctx.expect(str(undone.channels) == str(part.channels), f'{label}: channels {part.channels} became {undone.channels}')
    T = mat(part.get_transform_from_leaf())
    W_ = mat(W) if W is not None else None
    if W_ is not None:
        check_components(ctx, case, T, W_, label)
        m2 = imgref.warp_model(m, W_, 'auto', {})
        if max(m2.dsize) > 1500 or min(m2.dsize) < 1:
            return
        errs, st = imgref.check_final(m2, f)
        for k in ('inside', 'outside', 'mixed'):
            ctx.count('px_' + k, st[k])
        for e in errs:
            ctx.err(f'{label}: {e}')
        full = np.abs(W_ @ T - np.eye(3)).max() < 1e-6
    else:
        full = not case['mode'].get('retain') and not case['mode'].get('remove')
    if full and not case['mode'] and case['kind'] == 'linear':
        exact(ctx, case, m, f, label)


def exact(ctx, case, m, f, label):
    """ native samples """
    h, w = f.shape[:2]
    leaf = imgref.leaf_array(case['prog']['leaf'])
    if leaf.ndim == 2:
        leaf = leaf[:, :, None]
    for k, c in enumerate(m.chans):
        if c.nan:
            continue
        H, W = min(h, leaf.shape[0]), min(w, leaf.shape[1])
        a, b = f[:H, :W, k], leaf[:H, :W, c.k].astype(float)
        got = np.isfinite(a) & (a != 0)
        if not got.any():
            continue
        # interior of what is visible
        yy, xx = np.nonzero(got)
        inner = np.zeros_like(got)
        inner[2:-2, 2:-2] = True
        for dy in (-2, -1, 0, 1, 2):
            for dx in (-2, -1, 0, 1, 2):
                inner &= np.roll(np.roll(got, dy, 0), dx, 1)
        bad = inner & ~(np.abs(a - b) <= 2e-3 * (1 + np.abs(b)) * 1e-2 + 4e-4 * (imgref.GX + imgref.GY))
        ctx.count('exact_px', inner.sum())
        if bad.any():
            j = np.argwhere(bad)[0]
            ctx.err(f'{label}: {int(bad.sum())} of {int(inner.sum())} undone pixels are not the samples of the leaf, first at {j.tolist()}: {a[tuple(j)]} vs {b[tuple(j)]}')


def check_components(ctx, case, T, W, label):
    mode = case['mode']
    retain = set(mode['retain']) if 'retain' in mode else set(KEYS) - set(mode['remove']) if 'remove' in mode else set()
    R = W @ T
    L = T[:2, :2]
    ctx.count('components')

    def same(A, B):
        return np.abs(A - B).max() <= 1e-5 * max(1, np.abs(T[:2, :2]).max(), 1 / max(1e-6, abs(np.linalg.det(L))))
    if not retain:
        P = np.array([[100, 0, 1], [0, 100, 1], [0, 0, 1.]]).T
        ctx.expect(np.abs(R @ P - P).max() < 1e-4, f'{label}: a full undo leaves the transform {R.round(5).tolist()}')
        return
    if retain == {'offset'}:
        ctx.expect(same(R[:2, :2], np.eye(2)), f'{label}: all but the offset undone leaves {R.round(5).tolist()}')
        ctx.expect(np.abs(W[:2, 2]).max() < 1e-9, f'{label}: the undo warp moves although the offset is retained {W.round(4).tolist()}')
        return
    if 'offset' in retain:
        ctx.expect(np.abs(W[:2, 2]).max() < 1e-9, f'{label}: the undo warp moves although the offset is retained {W.round(4).tolist()}')
    if retain >= set(KEYS):
        ctx.expect(same(W, np.eye(3)), f'{label}: everything is retained but the warp is {W.round(4).tolist()}')
    sx, sy = np.hypot(*L[:, 0]), np.hypot(*L[:, 1])
    aligned = abs(L[0, 1]) < 1e-9 and abs(L[1, 0]) < 1e-9 and L[0, 0] > 0 and L[1, 1] > 0
    if aligned:
        want = L if 'scale' in retain else np.eye(2)
        ctx.expect(same(R[:2, :2], want), f'{label}: retaining {sorted(retain)} of {L.round(4).tolist()} leaves {R[:2, :2].round(4).tolist()}')
    elif abs(L[:, 0] @ L[:, 1]) < 1e-9 * sx * sy and abs(sx - sy) < 1e-9 * sx and np.linalg.det(L) > 0:
        # rotation and uniform scale commute
        want = np.eye(2)
        if 'scale' in retain:
            want = want * sx
        if 'theta' in retain:
            want = want @ (L / sx)
        ctx.expect(same(R[:2, :2], want), f'{label}: retaining {sorted(retain)} of {L.round(4).tolist()} leaves {R[:2, :2].round(4).tolist()}')
        ctx.count('rotations')


def submodel(m, a, b):
    return imgref.Model(m.dsize, [c.copy() for c in m.chans[a:b]], m.names[a:b] if m.names else None, m.overviews)


def run(case, ctx):
    import delayed_image as di
    node = imgref.build(case['prog'], imgref.Env(ctx.scratch))
    m = imgref.model(case['prog'])
    kw = dict(case['mode'])
    snap = util.snapshot(node)
    if case['kind'] == 'optconcat':
        node = node.optimize()
        snap = util.snapshot(node)
    label = f'undo {kw}'
    if kw and not all(len(v) == 0 for v in kw.values()):
        both = {'remove': ['scale', 'theta'], 'retain': ['offset'], **kw}
        undo = node.undo_warps if isinstance(node, di.DelayedChannelConcat) else node.undo_warp
        try:
            undo(**both)
        except ValueError:
            ctx.count('refused')
        else:
            ctx.expect(False, f'undo {both}: accepted both')
    if isinstance(node, di.DelayedChannelConcat):
        parts = node.parts
        if any(isinstance(n, di.DelayedChannelConcat) for p in parts for n in util.walk(p)):
            if not all(isinstance(p, di.DelayedImage) for p in parts):
                return
            ctx.count('nested')
            return
        if case['warps']:
            undone, warps = node.undo_warps(squash_nans=case['squash'], return_warps=True, **kw)
        else:
            undone = node.undo_warps(squash_nans=case['squash'], **kw)
            warps = [None] * len(parts)
        ctx.expect(len(undone) == len(warps) == len(parts), f'{label}: {len(parts)} parts became {len(undone)} images, {len(warps)} warps')
        a = 0
        for i, (p, u, W) in enumerate(zip(parts, undone, warps)):
            judge(ctx, case, p, submodel(m, a, a + p.num_channels), u, W, case['squash'], f'{label} part {i}')
            a += p.num_channels
            # the same as one by one
            u1, W1 = p.undo_warp(squash_nans=case['squash'], return_warp=True, **kw)
            ctx.expect(tuple(u1.shape) == tuple(u.shape), f'{label}: part {i} by itself has shape {u1.shape}, else {u.shape}')
            ctx.expect(W is None or np.allclose(mat(W), mat(W1)), f'{label}: part {i} by itself has warp {W1}, else {W}')
    else:
        if any(isinstance(n, di.DelayedChannelConcat) for n in util.walk(node)):
            ctx.count('nested')
            return
        if case['warps'] or case['kind'] == 'linear':
            u, W = node.undo_warp(squash_nans=case['squash'], return_warp=True, **kw)
        else:
            u, W = node.undo_warp(squash_nans=case['squash'], **kw), None
        judge(ctx, case, node, m, u, W, case['squash'], label)
    d = util.snapdiff(snap, util.snapshot(node))
    ctx.expect(d is None, f'{label}: modified the image: {d}')
    ctx.distinct(util.opnames(case['prog']), sorted(case['mode'].get('retain', [])), sorted(case['mode'].get('remove', ['-'])))
