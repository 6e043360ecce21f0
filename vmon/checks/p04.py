"""
The resampling options of a warp survive optimization.
"""
import math

import numpy as np

from vmon import imggen, imgref, util

ID = 'P04'
TITLE = 'Resampling options given to a warp are the ones used after optimization'
RULE = ('one tree whose warps share a set of options is optimized and rendered: options of every warp node, the set of '
        'pixel values (nearest), the value range (linear/cubic), the smoothing (antialias) and the fill are judged; '
        'distinct = distinct (operations, options)')
QUICK, THOROUGH = 1800, 40000
REQUIRE = {'warp_nodes': 1200, 'nearest': 200, 'overshoot': 40, 'linear_range': 200, 'antialias': 60, 'fill': 100, 'chain': 100, 'chain_fused': 60, 'part_fills': 200}
ASSUMPTIONS = ['the smoothing statistics compare noise images rendered with and without antialias in the same geometry']


def rand_warp(R, opts):
    op = {'op': 'warp', 'tf': imggen.rand_tf(R)}
    op.update(opts)
    if 'interpolation' in opts and R.random() < .15:
        op['code'] = 1
    if R.random() < 0.3:
        op['dsize'] = [R.randint(20, 150), R.randint(20, 150)]
    return op


def rand_opts(R):
    return {'interpolation': R.choice(['nearest', 'linear', 'cubic', 'lanczos']), 'antialias': R.random() < .5,
            'border_value': R.choice([0, 7, 'auto', 3]), 'backend': R.choice(['cv2', 'auto'])}


def gen_chain(R):
    # warps that want different things
    warps = []
    for _ in range(R.choice([2, 2, 3])):
        while True:
            tf = imggen.rand_tf(R)
            s = imgref.affine_scale(np.asarray(imgref.coerce_tf(tf)).astype(float))
            if tf != {'scale': 1.0} and .3 < s.min() and s.max() < 2.5:
                break
        op = {'tf': tf, 'opts': rand_opts(R)}
        op['between'] = R.choice([None, None, 'crop', 'take', 'opt'])
        warps.append(op)
    return {'mode': 'chain', 'warps': warps, 'w': R.randint(20, 60), 'h': R.randint(20, 60), 'parts': R.choice([0, 0, 2]),
            'load': R.choice([0, 1, 2]), 'dtype': R.choice(['float32', 'int16'])}


def gen_border(R):
    counts = R.choice([[1, 1], [2, 1], [1, 2], [1, 1, 1], [2, 2], [1, 3], [1, 1, 2], [3, 1], [1, 1, 1, 1]])
    n = sum(counts)
    fills = R.sample(range(1, 200), n)
    steps = [R.choice(['crop', 'take', 'opt', 'names']) for _ in range(R.randint(0, 3))]
    return {'mode': 'border', 'counts': counts, 'fills': fills, 'w': R.randint(6, 40), 'h': R.randint(6, 40), 'load': R.choice([0, 1]),
            'dtype': R.choice(['float32', 'float64', 'int16', 'uint8']), 'opts': {'interpolation': R.choice(['nearest', 'linear', 'linear', 'cubic']), 'antialias': R.random() < .5},
            'tf': {'scale': R.choice([1, 1, 2, .5, 1.3, .7]), 'offset': [R.randint(5, 20), R.randint(5, 20)], 'theta': R.choice([0, 0, 0, .3])},
            'steps': steps, 'seed': R.randint(0, 10 ** 6), 'inner': R.random() < .4}


def run_chain(case, ctx):
    import delayed_image as di
    env = imgref.Env(ctx.scratch)
    parts = []
    for k in range(max(1, case['parts'])):
        leaf = {'kind': 'load' if case['load'] else 'ident', 'w': case['w'], 'h': case['h'], 'c': 2, 'uid': k, 'dtype': case['dtype'],
                'channels': f'a{k}|b{k}'}
        if case['load']:
            leaf['overviews'] = case['load'] - 1
        parts.append(imgref.build_leaf(leaf, env))
    node = di.DelayedChannelConcat(parts) if case['parts'] else parts[0]
    asked = []
    for op in case['warps']:
        node = node.warp(imgref.coerce_tf(op['tf']), **op['opts'])
        asked.append(op['opts'])
        w, h = node.dsize
        if op['between'] == 'crop' and w > 3 and h > 3:
            node = node[1:h - 1, 0:w - 1]
        elif op['between'] == 'take':
            node = node.take_channels([1, 0])
        elif op['between'] == 'opt':
            node = node.optimize()
    opt = node.optimize()
    ctx.count('chain')

    def outermost(n):
        if isinstance(n, di.DelayedWarp):
            return [n]
        return [w for c in n.children() for w in outermost(c)]
    seen = [n for n in util.walk(opt) if isinstance(n, di.DelayedWarp)]
    for n in seen:
        got = {k: n.meta[k] for k in asked[0]}
        ctx.expect(got in asked, f'a warp with {got} but requested were {asked}')
    if case['load'] < 2:
        for n in outermost(opt):
            got = {k: n.meta[k] for k in asked[0]}
            ctx.expect(got == asked[-1], f'the last warp uses {got} but requested was {asked[-1]}')
    ctx.count('chain_fused', len(seen) < len(asked) * max(1, case['parts']))
    ctx.distinct('chain', [sorted(o.items(), key=str) for o in asked], [op['between'] for op in case['warps']], case['load'], case['parts'])


def run_border(case, ctx):
    import delayed_image as di
    env = imgref.Env(ctx.scratch)
    R = np.random.default_rng(case['seed'])
    parts, k = [], 0
    for j, c in enumerate(case['counts']):
        leaf = {'kind': 'load' if case['load'] else 'ident', 'w': case['w'], 'h': case['h'], 'c': c, 'uid': j, 'dtype': case['dtype'], 'content': 'noise', 'seed': j,
                'channels': '|'.join(f'p{k + i}' for i in range(c))}
        parts.append(imgref.build_leaf(leaf, env))
        k += c
    if case['inner'] and len(parts) > 2:
        parts = [parts[0], di.DelayedChannelConcat(parts[1:])]
    node = di.DelayedChannelConcat(parts)
    fills = list(case['fills'])
    M = np.asarray(imgref.coerce_tf(case['tf'])).astype(float)
    W, H = case['w'] * 2 + 30, case['h'] * 2 + 30
    node = node.warp(M, dsize=(W, H), border_value=list(fills), **case['opts'])
    yy, xx = np.mgrid[0:H, 0:W]
    q = np.linalg.inv(M) @ np.stack([xx.ravel() + .5, yy.ravel() + .5, np.ones(W * H)])
    far = 6 / imgref.affine_scale(M).min()
    out = ((q[0] < -far) | (q[1] < -far) | (q[0] > case['w'] + far) | (q[1] > case['h'] + far)).reshape(H, W)
    chans = list(range(len(fills)))
    for s in case['steps']:
        if s == 'crop':
            h, w = out.shape
            y0, x0 = (int(v) for v in (R.integers(0, h // 2 + 1), R.integers(0, w // 2 + 1)))
            y1, x1 = int(R.integers(y0, h)) + 1, int(R.integers(x0, w)) + 1
            node = node[y0:y1, x0:x1]
            out = out[y0:y1, x0:x1]
        elif s == 'opt':
            node = node.optimize()
        else:
            idx = [int(v) for v in R.permutation(len(chans))[:R.integers(1, len(chans) + 1)]]
            node = node.take_channels(idx) if s == 'take' else node.take_channels('|'.join(f'p{chans[i]}' for i in idx))
            chans = [chans[i] for i in idx]
    for opt in (False, True):
        f = util.plain(node.finalize(optimize=opt)).astype(float)
        if f.ndim == 2:
            f = f[:, :, None]
        label = f'optimize={opt}: {case["counts"]} {case["opts"]} {case["steps"]}'
        if not ctx.expect(f.shape == out.shape + (len(chans),), f'{label}: shape {f.shape}'):
            return
        for i, ch in enumerate(chans):
            if out.any():
                ctx.count('part_fills')
                g = f[:, :, i][out]
                ctx.expect((np.abs(g - fills[ch]) < 1e-3).all(), f'{label}: channel {ch} is filled with {np.unique(g)[:4]} instead of {fills[ch]}')
    ctx.distinct('border', case['counts'], case['steps'], sorted(case['opts'].items(), key=str), case['load'], case['dtype'])


def gen(R, i, tier):
    if i % 6 == 5:
        return gen_chain(R) if i // 6 % 2 else gen_border(R)
    i -= i // 6
    names = list(imggen.NAMES)
    opts = {}
    opts['interpolation'] = R.choice(['nearest', 'linear', 'cubic', 'lanczos', 'nearest'])
    opts['antialias'] = R.random() < .5
    opts['border_value'] = R.choice([0, 7, 'auto', 3])
    opts['noop_eps'] = R.choice([0, 1e-9])
    opts['backend'] = R.choice(['cv2', 'auto'])
    for k in list(opts):
        if k != 'interpolation' and R.random() < .4:
            del opts[k]
    focus = {0: 'up', 1: 'down'}.get(i % 5)
    pow2 = i % 5 == 3
    if focus == 'up':
        opts['interpolation'] = R.choice(['cubic', 'lanczos'])
        opts['border_value'] = R.choice([0, 50])
    elif focus == 'down':
        opts['interpolation'] = 'linear'
        opts['antialias'] = R.random() < .5
    cfg = {'min_size': 12, 'max_size': 400, 'weights': [5, 2, 0, 0, 0, 0, 0, 0, 2, 1], 'p_missing': 0}
    while True:
        leaf = {'kind': R.choice(['ident', 'load']), 'w': R.randint(40, 100), 'h': R.randint(40, 100),
                'c': R.choice([1, 3, 4]), 'uid': 0, 'content': 'noise', 'seed': R.randint(0, 10 ** 6),
                'dtype': R.choice(['float32', 'float64', 'int16', 'uint8'])}
        if focus:
            leaf['dtype'] = R.choice(['float32', 'float64'])
        elif pow2 or leaf['kind'] == 'load' and R.random() < .6:
            leaf['kind'] = 'load'
            leaf['overviews'] = R.choice([1, 2, 3])
            leaf['resample'] = 'NEAREST'
            leaf['w'], leaf['h'] = R.randint(80, 200), R.randint(80, 200)
        if focus == 'down':
            leaf['w'], leaf['h'] = R.randint(120, 200), R.randint(120, 200)
        leaf['channels'] = '|'.join(names[:leaf['c']])
        prog = {'leaf': leaf, 'ops': []}
        m = imgref.model(prog)
        m = imggen.grow(R, prog, m, R.randint(0, 2), cfg)
        ok = True
        for _ in range(1 if focus else R.choice([1, 1, 2, 3])):
            op = rand_warp(R, opts)
            if focus == 'up':
                op.pop('dsize', None)
                op['tf'] = {'scale': round(R.uniform(1.9, 2.9), 2), 'offset': [R.randint(-5, 5), R.randint(-5, 5)],
                            'theta': R.choice([0, 0.1])}
            elif leaf.get('overviews') and R.random() < .7:
                op['tf'] = {'scale': R.choice([.25, .5, round(R.uniform(.1, .45), 3)]), 'offset': [R.randint(-5, 25), R.randint(-5, 25)]}
                if pow2:
                    op['tf'] = {'scale': R.choice([.25, .5, .5])}
                    if R.random() < .5:
                        op['tf']['offset'] = [R.randint(-9, 9), R.randint(-9, 9)]
                    if R.random() < .5:
                        op.pop('dsize', None)
                    elif R.random() < .6:
                        # larger in one axis, at most the same in the other
                        op['tf'].pop('offset', None)
                        more = [R.choice([0, 0, -3]), R.randint(16, 40)]
                        R.shuffle(more)
                        op['dsize'] = [math.ceil(d * op['tf']['scale']) + e for d, e in zip(m.dsize, more)]
            elif focus == 'down':
                op.pop('dsize', None)
                op['tf'] = {'scale': [round(R.uniform(.15, .3), 3), round(R.uniform(.15, .3), 3)],
                            'offset': [R.randint(0, 5), R.randint(0, 5)], 'theta': R.choice([0, 0, 0.1])}
                if R.random() < .4:
                    # only one axis shrinks
                    sxy = [round(R.uniform(.12, .25), 3), R.choice([1, round(R.uniform(.95, 1.3), 3)])]
                    R.shuffle(sxy)
                    op['tf']['scale'] = sxy
            m2 = imgref.model_op(m, op)
            if not imggen.op_ok(prog, op, m, m2, cfg):
                ok = False
                break
            prog['ops'].append(op)
            m = m2
            m = imggen.grow(R, prog, m, R.randint(0, 2), cfg)
        if ok:
            break
    kind = R.choice(['mixed', 'mixed', 'concat'])
    return {'prog': prog if kind == 'mixed' else {'concat': [prog], 'ops': []}, 'opts': opts}


KEYS = {'interpolation': 'linear', 'antialias': True, 'border_value': 'auto', 'noop_eps': 0, 'backend': 'auto'}


def strip_aa(prog, aa):
    import copy
    prog = copy.deepcopy(prog)
    stack = [prog]
    while stack:
        p = stack.pop()
        stack += p.get('concat', [])
        for op in p.get('ops', []):
            if op['op'] == 'warp':
                op['antialias'] = aa
    return prog


def run(case, ctx):
    import delayed_image as di
    if 'mode' in case:
        return {'chain': run_chain, 'border': run_border}[case['mode']](case, ctx)
    prog, opts = case['prog'], case['opts']
    leaf = prog['leaf'] if 'leaf' in prog else prog['concat'][0]['leaf']
    ops = prog['ops'] if 'leaf' in prog else prog['concat'][0]['ops']
    m = imgref.model(prog)
    env = imgref.Env(ctx.scratch)
    node = imgref.build(prog, env)
    opt = node.optimize()
    for n in util.walk(opt):
        if isinstance(n, di.DelayedWarp):
            ctx.count('warp_nodes')
            for k, dflt in KEYS.items():
                want = opts.get(k, dflt)
                got = n.meta[k]
                if k == 'interpolation':
                    got = {v: k for k, v in imgref.CODES.items()}.get(got, got)
                if k == 'noop_eps' and want == 0 and got in (0, None):
                    continue
                ctx.expect(got == want, f'{k}={want!r} became {got!r}')
    src = imgref.leaf_array(leaf).astype(float)
    info = None if leaf['dtype'][0] == 'f' else np.iinfo(leaf['dtype'])
    interp = opts['interpolation']
    aa = opts.get('antialias', True)
    bv = opts.get('border_value', 'auto')
    auto = bv == 'auto'
    warps = [op for op in ops if op['op'] == 'warp']
    inside = interior(m)
    down = min(imgref.affine_scale(m.chans[0].M).min(), 1)
    for mode in (False, True):
        f = util.plain(node.finalize(optimize=mode)).astype(float)
        label = f'optimize={mode}'
        if interp == 'nearest':
            vals = np.unique(f[~np.isnan(f)])
            allowed = np.unique(np.concatenate([src.ravel(), [0.0 if auto else bv]]))
            bad = ~np.isin(vals, allowed)
            ctx.count('nearest')
            ctx.expect(not bad.any(), f'{label}: nearest produced values that are not in the source: {vals[bad][:5]}')
            if not auto:
                ctx.expect(not np.isnan(f).any(), f'{label}: nans with a border value')
        elif interp == 'linear':
            g = f[inside]
            g = g[~np.isnan(g)]
            ctx.count('linear_range')
            if g.size:
                eps = 1e-4 * max(1, np.abs(src).max()) + (1 if info else 0)
                ctx.expect(g.min() >= src.min() - eps and g.max() <= src.max() + eps,
                           f'{label}: linear interpolation left the range of the source: [{g.min()}, {g.max()}] '
                           f'source [{src.min()}, {src.max()}]')
        elif not auto and info is None:
            # noise magnified with a kernel with negative lobes has to overshoot
            up = imgref.affine_scale(m.chans[0].M).min()
            g = f[inside]
            if up > 1.7 and len(warps) == 1 and len(g) > 1500:
                ctx.count('overshoot')
                ctx.expect(g.min() < src.min() - 0.5 or g.max() > src.max() + 0.5,
                           f'{label}: {interp} did not overshoot: [{g.min()}, {g.max()}] source [{src.min()}, {src.max()}]')
        if not auto and interp != 'nearest' and len(warps) == 1:
            out = outside(m)
            if out.any():
                ctx.count('fill')
                g = f[out]
                ctx.expect((np.abs(g - bv) <= 1e-4).all(), f'{label}: fill {np.unique(g)[:5]} instead of {bv}')
        if interp == 'linear' and down < 0.35 and not leaf.get('overviews') and len(warps) == 1 and inside.sum() > 80:
            # same tree with the other choice of antialias
            ref = {}
            for a in (False, True):
                ref[a] = util.plain(imgref.build(strip_aa(prog, a), env).finalize(optimize=False)).astype(float)[inside]
            s = {a: np.nanstd(v) for a, v in ref.items()}
            ctx.expect(not s[False] > 0 or s[True] < .8 * s[False], f'{label}: noise std {s[True]:.3g} with antialias, {s[False]:.3g} without')
            if s[False] > 1.5 * s[True] and s[True] > 0:
                ctx.count('antialias')
                got = np.nanstd(f[inside])
                near = min((False, True), key=lambda a: abs(np.log(max(got, 1e-9) / s[a])))
                ctx.expect(near == aa, f'{label}: noise std {got:.3g}, with antialias {s[True]:.3g}, without '
                                       f'{s[False]:.3g}, but antialias={aa}')
    ctx.distinct([o['op'] for o in ops], sorted(opts.items(), key=str), leaf['kind'])


def _dist(m):
    h, w, _ = m.shape
    yy, xx = np.mgrid[0:h, 0:w]
    P = np.stack([xx.ravel() + 0.5, yy.ravel() + 0.5, np.ones(h * w)])
    inner = np.full(h * w, np.inf)
    outer = np.full(h * w, -np.inf)
    for (N, cw, ch) in m.chans[0].clips:
        p = np.linalg.inv(N) @ P
        d = np.minimum.reduce([p[0], p[1], cw - p[0], ch - p[1]])
        s = 1.0 / max(1e-9, imgref.affine_scale(N).min())
        inner = np.minimum(inner, d / max(1.0, s))
        if outer.max() == -np.inf and N is m.chans[0].clips[0][0]:
            outer = -d / max(1.0, s)
    return inner.reshape(h, w), outer.reshape(h, w)


def interior(m):
    return _dist(m)[0] >= 7


def outside(m):
    return _dist(m)[1] >= 9
