"""
Transforms reported between images are where the data really is.

The reference transform comes from the geometry model (imgref), the
measurement from the rendered ramps.
"""
import numpy as np

from vmon import imggen, imgref, util

ID = 'P13'
TITLE = 'The transform reported between two images maps the data of one onto the other'
RULE = ('get_transform_from / get_transform_from_leaf of pairs of images derived from shared data, compared with the '
        'composed reference transform and with positions decoded from both renders; distinct = distinct (shape of the pair)')
QUICK, THOROUGH = 900, 20000
REQUIRE = {'pairs': 1500, 'leaf_transforms': 1000, 'positions': 300}
ASSUMPTIONS = ['positions measured on ramps are trusted to the tolerance of P01']

CFG = {'p_kw': 0.1, 'weights': [4, 1.0, 4, 2, 1.5, 1, 0.3, 1, 0.5, 0.8], 'nops': [1, 4], 'p_unnamed': 0.05}


def gen(R, i, tier):
    """a shared base and two (or three) derivations of it"""
    for _ in range(200):
        depth = [0, 0, 1, 1, 2][i % 5]
        base = imggen.rand_prog(R, dict(CFG, nops_outer=[0, 2], p_nanpart=0.0), depth=depth)
        m = imgref.model(base)
        if (depth and m.names is None) or all(c.nan for c in m.chans):
            continue
        subs = []
        for _k in range(2):
            p = {'base': 1, 'ops': []}
            cfg = dict(CFG, weights=[4, 0, 4, 2, 1.5, 1, 0, 1, 0, 0.8])
            imggen.grow(R, p, m, R.randint(0, 4), cfg)
            subs.append(p['ops'])
        return {'base': base, 'subs': subs, 'opt': [R.random() < .4, R.random() < .4],
                'take': R.random() < .3, 'depth': depth, 'seed': R.randint(0, 10 ** 6)}
    raise AssertionError


def mat(T):
    import kwimage
    M = kwimage.Affine.coerce(T).matrix
    return np.eye(3) if M is None else np.asarray(M, dtype=float)


def close(A, B, scale=100.0):
    # positions of an image of this size may differ by 1e-5 px
    P = np.array([[0, 0, 1], [scale, 0, 1], [0, scale, 1], [scale, scale, 1.]]).T
    return np.abs((A @ P) - (B @ P)).max() <= 1e-5 * max(1, np.abs(B).max())


def run(case, ctx):
    base = imgref.build(case['base'], imgref.Env(ctx.scratch))
    m = imgref.model(case['base'])
    nodes, models = [], []
    for ops, opt in zip(case['subs'], case['opt']):
        n, mm = base, m
        for op in ops:
            n = imgref.apply_op(n, op)
            mm = imgref.model_op(mm, op)
        if opt:
            n = n.optimize()
        nodes.append(n)
        models.append(mm)
    src, dst = nodes
    snaps = [util.snapshot(n) for n in nodes]
    msrc, mdst = models
    # --- one leaf: the position in the leaf
    for n, mm, which in zip(nodes, models, ('src', 'dst')):
        for leaf, path in n._leaf_paths():
            if not hasattr(path, 'get_transform_from_leaf') or type(leaf).__name__ in {'DelayedNans', 'DelayedNodata'}:
                # (nowhere and everywhere)
                continue
            T = mat(path.get_transform_from_leaf())
            cands = [c for c in mm.chans if c.leaf['c'] == leaf.num_channels and [c.leaf['w'], c.leaf['h']] == list(leaf.dsize)]
            if not cands:
                continue
            ctx.count('leaf_transforms')
            ok = any(close(T, c.M) for c in cands)
            ctx.expect(ok, f'{which}: leaf transform {T.round(4).tolist()} but the data is at {cands[0].M.round(4).tolist()} '
                           f'(optimized: {case["opt"]})')
    # --- between the images
    want = mdst.chans[0].M @ np.linalg.inv(msrc.chans[0].M)
    pairs = [(dst, src, want, 'dst from src'), (src, dst, np.linalg.inv(want), 'src from dst'),
             (src, base, msrc.chans[0].M @ np.linalg.inv(m.chans[0].M), 'src from base'),
             (dst, dst, np.eye(3), 'dst from itself')]
    for a, b, W, msg in pairs:
        got = mat(a.get_transform_from(b))
        ctx.count('pairs')
        ctx.expect(close(got, W), f'{msg}: {got.round(4).tolist()} but the data says {W.round(4).tolist()} (optimized {case["opt"]})')
    for n, s in zip(nodes, snaps):
        ctx.expect(util.snapdiff(s, util.snapshot(n)) is None, f'asking for a transform modified the image: {util.snapdiff(s, util.snapshot(n))}')
    # --- measured: corresponding points show the same leaf position
    got = mat(dst.get_transform_from(src))
    fs, fd = util.plain(src.finalize()), util.plain(dst.finalize())
    rr = np.random.default_rng(case['seed'])
    h, w = fs.shape[:2]
    for _ in range(80):
        x, y = rr.uniform(.2, .8) * w, rr.uniform(.2, .8) * h
        X, Y, _1 = got @ [x, y, 1]
        for k in range(min(fs.shape[2], fd.shape[2])):
            a, b = bil(fs[:, :, k], x, y), bil(fd[:, :, k], X, Y)
            if a is None or b is None:
                continue
            ca, cb = msrc.chans[k], mdst.chans[k]
            if not (interior(ca, x, y) and interior(cb, X, Y)):
                continue
            lp = max(1.0, 1.0 / imgref.affine_scale(ca.M).min(), 1.0 / imgref.affine_scale(cb.M).min())
            tol = ca.tol + cb.tol + abs(ca.mul) * (ca.drift + cb.drift + 0.24 * lp * (2 if ca.wild or cb.wild else 1) * max(1, ca.nwarp + cb.nwarp)) + 1e-5 * (abs(a) + abs(b) + abs(ca.add))
            ctx.count('positions')
            ctx.expect(abs(a - b) <= tol, f'the point {x:.2f},{y:.2f} shows {a} but its image {X:.2f},{Y:.2f} shows {b} (tol {tol:.3g})')
    ctx.distinct(case['depth'], [o['op'] for o in case['subs'][0]], [o['op'] for o in case['subs'][1]], case['opt'])


def interior(c, x, y):
    P = np.array([x, y, 1.0])
    for si, (N, w, h) in enumerate(c.clips):
        p = np.linalg.inv(N) @ P
        fs = [max(1.0, 1.0 / max(1e-9, imgref.affine_scale(N).min()))]
        for (N2, _, _) in c.clips[si + 1:]:
            fs.append(max(1.0, 1.0 / max(1e-9, imgref.affine_scale(np.linalg.inv(N2) @ N).min())))
        # positions are between pixels here
        mg = 4.5 * sum(fs) + 4 + 3 * max(1.0, imgref.affine_scale(np.linalg.inv(N) @ c.M).max())
        if min(p[0], p[1], w - p[0], h - p[1]) < mg:
            return False
    return True


def bil(a, x, y):
    h, w = a.shape
    fx, fy = x - 0.5, y - 0.5
    i, j = int(np.floor(fy)), int(np.floor(fx))
    if i < 0 or j < 0 or i + 1 >= h or j + 1 >= w:
        return None
    u, v = fy - i, fx - j
    q = a[i:i + 2, j:j + 2].astype(float)
    r = (1 - u) * ((1 - v) * q[0, 0] + v * q[0, 1]) + u * ((1 - v) * q[1, 0] + v * q[1, 1])
    return None if np.isnan(r) else float(r)
