"""
Cropping and channel selection are exactly numpy indexing.
"""
import numpy as np

from vmon import imggen, imgref, util

ID = 'P06'
TITLE = 'Crops of any image select exactly the pixels numpy slicing selects'
RULE = ('a tree of crops, band selections, padded crops and concatenations over noise leafs is rendered with and without '
        'optimization and compared bit for bit with numpy; distinct = distinct (nesting, slice kinds)')
QUICK, THOROUGH = 3000, 80000
REQUIRE = {'renders': 4000, 'no_channels': 20, 'padded': 300, 'empty': 50, 'negative': 500, 'oob': 300, 'gdal': 800, 'chansel': 800,
           'concat': 500}
ASSUMPTIONS = ['padding pixels hold nan for floating point data and 0 for integers',
               'at most one padded crop per path: consecutive warps are fused, which ignores the window between them']

DT_ANY = ['uint8', 'uint16', 'int16', 'int32', 'uint32', 'float32', 'float64']
DT_CV = ['uint8', 'uint16', 'int16', 'float32', 'float64']


def rand_span(R, D, allow_empty=True):
    t = R.random()
    if t < 0.12:
        return [None, None], 'all'
    if t < 0.20:
        b = R.randint(1, max(1, D))
        return [None, b], 'head'
    if t < 0.28:
        return [R.randint(0, max(0, D - 1)), None], 'tail'
    if t < 0.40:
        k = R.randint(1, max(1, D))
        return [-k, None], 'neg'
    if t < 0.48:
        k = R.randint(1, max(1, D - 1))
        return [R.randint(0, max(0, D - k - 1)), -k], 'neg'
    if t < 0.54:
        a = R.randint(1, max(1, D))
        return [-a, -R.randint(0, a - 1) or None], 'neg'
    if t < 0.64:
        return [R.randint(0, max(0, D - 1)), D + R.randint(0, 40)], 'oob'
    if t < 0.70:
        return [-D - R.randint(1, 40), R.randint(1, max(1, D))], 'oob'
    if allow_empty and t < 0.72:
        a = R.randint(0, D)
        return [a, a], 'empty'
    if allow_empty and t < 0.73:
        return [D + R.randint(0, 5), D + 9], 'empty'
    if allow_empty and t < 0.74:
        return [R.randint(D // 2, D), R.randint(0, D // 2)], 'empty'
    a = R.randint(0, max(0, D - 1))
    return [a, R.randint(min(D, a + 1), D)], 'in'


def rand_chan(R, C, none=False):
    if none and R.random() < .06:
        return R.choice([[], {'slice': [0, 0, None]}, {'slice': [C, None, None]}])
    t = R.random()
    if t < 0.3:
        return [R.randrange(C) for _ in range(R.randint(1, C + 1))]
    if t < 0.45:
        return [R.randrange(-C, C) for _ in range(R.randint(1, C))]
    if t < 0.55:
        return R.randrange(-C, C)
    if t < 0.65:
        return R.sample(range(C), R.randint(1, C))
    if t < 0.75:
        return {'slice': [None, None, -1] if R.random() < .5 else [None, None, 2]}
    a = R.randint(0, C - 1)
    s = [a, R.randint(a + 1, C)]
    if R.random() < .3:
        s = [-R.randint(1, C), None]
    return {'slice': s + [None]}


def chan_arg(ch):
    if isinstance(ch, dict):
        return slice(*ch['slice'])
    return ch


def chan_list(ch, C):
    if isinstance(ch, dict):
        return list(range(C))[slice(*ch['slice'])]
    if isinstance(ch, int):
        ch = [ch]
    return [c % C for c in ch]


def rand_leaf(R, uid, cfg):
    kind = R.choice(['ident', 'load'])
    if R.random() < .1 and cfg.get('nans'):
        kind = R.choice(['nans', 'nodata'])
    leaf = {'kind': kind, 'w': cfg['size'][0], 'h': cfg['size'][1], 'c': R.choice([1, 1, 2, 3, 4, 5]), 'uid': uid,
            'content': 'noise', 'seed': R.randint(0, 10 ** 6), 'dtype': R.choice(cfg['dtypes'])}
    if leaf['dtype'][0] == 'f' and R.random() < .3:
        leaf['content'] = 'wild'
    if R.random() < .6:
        leaf['channels'] = '|'.join(f'{chr(97 + uid)}{i}' for i in range(leaf['c']))
    if kind == 'ident' and leaf['c'] == 1 and R.random() < .5:
        leaf['flat'] = 1
    if kind == 'load':
        leaf['block'] = R.choice([None, 16])
        leaf['interleave'] = R.choice([None, 'PIXEL', 'BAND'])
        leaf['overviews'] = R.choice([0, 0, 2])
    return leaf


def gen(R, i, tier):
    pads = i % 3 == 0
    fl = R.random() < .5
    cfg = {'size': [R.randint(3, 60), R.randint(3, 60)]}
    if pads:
        cfg['dtypes'] = ['float32', 'float64'] if fl else [R.choice(['uint8', 'int16', 'uint16'])]
    else:
        cfg['dtypes'] = DT_ANY
    cfg['nans'] = not pads or fl
    n = [0]

    def grow(prog, w, h, C, k):
        for _ in range(k):
            t = R.random()
            if t < 0.25 and C:
                ch = rand_chan(R, C, not pads)
                idx = chan_list(ch, C)
                if not idx and pads or len(idx) > 4:
                    continue
                if R.random() < .4 and not isinstance(ch, int):
                    prog['ops'].append({'op': 'take', 'spec': ch})
                else:
                    ys, k1 = rand_span(R, h)
                    xs, k2 = rand_span(R, w)
                    if 'empty' in (k1, k2) and pads:
                        continue
                    op = {'op': 'crop', 'y': ys, 'x': xs, 'chan': ch, 'kinds': [k1, k2],
                          'via': R.choice(['crop', 'getitem'])}
                    if R.random() < .3:
                        op['y'] = 'none'
                        op['via'] = 'crop'
                    else:
                        h, w = len(range(h)[slice(*ys)]), len(range(w)[slice(*xs)])
                    prog['ops'].append(op)
                C = len(idx)
            elif t < 0.45 and pads and min(w, h) > 0 and not imggen.prog_has(prog, 'padcrop'):
                op = {'op': 'padcrop'}
                out = []
                outside = R.choice([h, w]) if R.random() < .1 else None
                for D in (h, w):
                    a = R.randint(-15, D - 1)
                    b = R.randint(max(a, 0) + 1, D + 15)
                    if outside and D == outside:
                        a = R.choice([-20, D, D + 5])
                        b = a + R.randint(1, 15)
                    out.append([a, b])
                op['y'], op['x'] = out
                if R.random() < .4:
                    op['pad'] = R.choice([R.randint(0, 9), [R.randint(0, 9), R.randint(0, 9)],
                                          [[R.randint(0, 9), R.randint(0, 9)], [R.randint(0, 9), R.randint(0, 9)]]])
                if R.random() < .3:
                    ch = rand_chan(R, C)
                    idx = chan_list(ch, C)
                    if idx and len(idx) <= 4:
                        op['chan'] = ch
                        C = len(idx)
                prog['ops'].append(op)
                (y0, y1), (x0, x1) = pad_window(op, w, h)
                h, w = y1 - y0, x1 - x0
            elif t < 0.5:
                prog['ops'].append({'op': 'opt'})
            else:
                ys, k1 = rand_span(R, h, not pads)
                xs, k2 = rand_span(R, w, not pads)
                via = R.choice(['crop', 'getitem', 'lazy', 'lazy'])
                if via == 'lazy' and R.random() < .4:
                    # almost the whole image
                    ys, xs = [[R.choice([0, None, 0, 1]), R.choice([n, None, n, m, n - 1, n + 2])] for n, m in ((h, w), (w, h))]
                    k1 = k2 = 'whole'
                h2, w2 = len(range(h)[slice(*ys)]), len(range(w)[slice(*xs)])
                if pads and min(h2, w2) == 0:
                    continue
                h, w = h2, w2
                prog['ops'].append({'op': 'crop', 'y': ys, 'x': xs, 'kinds': [k1, k2],
                                    'via': via})
        return w, h, C

    def prog(depth):
        if depth == 0:
            leaf = rand_leaf(R, n[0], cfg)
            n[0] += 1
            p = {'leaf': leaf, 'ops': []}
            return p, grow(p, leaf['w'], leaf['h'], leaf['c'], R.randint(1, 4))
        parts, C = [], 0
        dsize = None
        for _ in range(R.choice([1, 2, 2, 3])):
            p, (w, h, c) = prog(depth - 1)
            if dsize is None:
                dsize = (w, h)
            elif (w, h) != dsize:
                if w >= dsize[0] and h >= dsize[1]:
                    y, x = R.randint(0, h - dsize[1]), R.randint(0, w - dsize[0])
                    p['ops'].append({'op': 'crop', 'y': [y, y + dsize[1]], 'x': [x, x + dsize[0]], 'kinds': ['in', 'in']})
                else:
                    leaf = rand_leaf(R, n[0], dict(cfg, size=list(dsize)))
                    n[0] += 1
                    if 0 in dsize:
                        continue
                    p, c = {'leaf': leaf, 'ops': []}, leaf['c']
            parts.append(p)
            C += c
        p = {'concat': parts, 'ops': []}
        return p, grow(p, dsize[0], dsize[1], C, R.randint(0, 4))
    return {'prog': prog(R.choice([0, 0, 0, 1, 1, 2]))[0], 'pads': pads,
            'step': [R.choice([None, 0, 3]), R.choice([None, 9]), R.choice([2, 3, -1, 1, None])] if R.random() < .1 else None}


def pad_window(op, w, h):
    pad = op.get('pad', 0)
    if not isinstance(pad, list):
        pad = [pad, pad]
    pad = [p if isinstance(p, list) else [p, p] for p in pad]
    y0, y1 = op['y'][0] - pad[0][0], op['y'][1] + pad[0][1]
    x0, x1 = op['x'][0] - pad[1][0], op['x'][1] + pad[1][1]
    return (y0, y1), (x0, x1)


def expected(prog):
    if 'concat' in prog:
        arr = np.concatenate([expected(p) for p in prog['concat']], axis=2)
    else:
        leaf = prog['leaf']
        if leaf['kind'] in {'nans', 'nodata'}:
            arr = np.full((leaf['h'], leaf['w'], leaf['c']), np.nan)
        else:
            arr = imgref.leaf_array(leaf)
    for op in prog['ops']:
        h, w, C = arr.shape
        if op['op'] == 'crop':
            if op['y'] != 'none':
                arr = arr[slice(*op['y']), slice(*op['x'])]
            if 'chan' in op:
                arr = arr[:, :, chan_list(op['chan'], C)]
        elif op['op'] == 'take':
            arr = arr[:, :, chan_list(op['spec'], C)]
        elif op['op'] == 'padcrop':
            (y0, y1), (x0, x1) = pad_window(op, w, h)
            fill = np.nan if arr.dtype.kind == 'f' else 0
            new = np.full((y1 - y0, x1 - x0, C), fill, dtype=arr.dtype)
            sy, sx = max(y0, 0), max(x0, 0)
            ey, ex = min(y1, h), min(x1, w)
            if ey > sy and ex > sx:
                new[sy - y0:ey - y0, sx - x0:ex - x0] = arr[sy:ey, sx:ex]
            arr = new
            if 'chan' in op:
                arr = arr[:, :, chan_list(op['chan'], C)]
    return arr


def build(prog, env):
    import delayed_image as di
    if 'concat' in prog:
        node = di.DelayedChannelConcat([build(p, env) for p in prog['concat']])
    else:
        node = imgref.build_leaf(prog['leaf'], env)
    for op in prog['ops']:
        if op['op'] == 'take':
            node = node.take_channels(chan_arg(op['spec']))
        elif op['op'] == 'crop':
            space = None if op['y'] == 'none' else (slice(*op['y']), slice(*op['x']))
            via = op.get('via', 'crop')
            if via == 'getitem':
                node = node[space + ((chan_arg(op['chan']),) if 'chan' in op else ())]
            elif 'chan' in op:
                node = node.crop(space, chan_arg(op['chan']))
            else:
                node = node.crop(space, lazy=via == 'lazy')
        else:
            node = imgref.apply_op(node, op)
    return node


def exact(got, want):
    got = np.asarray(got)
    if got.ndim == 2 and want.shape[2] == 1:
        got = got[:, :, None]
    if got.shape != want.shape:
        return f'shape {got.shape} != {want.shape}'
    if got.size == 0:
        return None
    eq = (got == want) | ((got != got) & (want != want))
    if not eq.all():
        j = tuple(np.argwhere(~eq)[0])
        return f'{int((~eq).sum())}/{eq.size} pixels differ, first {tuple(map(int, j))}: {got[j]} != {want[j]}'
    return None


def step_crop(case, node, want, ctx):
    # a step is obeyed or refused
    sl = slice(*case['step'])
    for space in ((sl, slice(None)), (slice(None), sl)):
        for kw in ({}, {'lazy': True}):
            try:
                got = node.crop(space, **kw).finalize()
            except (NotImplementedError, ValueError, IndexError, TypeError):
                ctx.count('steps_refused')
                ctx.expect(sl.step not in {None, 1}, f'crop {space} refused')
                continue
            ctx.count('steps_taken')
            e = exact(got, want[space])
            ctx.expect(e is None, f'crop {space} {kw}: {e}')


def run(case, ctx):
    prog = case['prog']
    want = expected(prog)
    node = build(prog, imgref.Env(ctx.scratch))
    ctx.expect(tuple(node.shape) == want.shape, f'metadata shape {node.shape}, expected {want.shape}')
    opt = node.optimize()
    ctx.expect(tuple(opt.shape) == want.shape, f'optimized metadata shape {opt.shape}, expected {want.shape}')
    for mode in (False, True):
        e = exact(node.finalize(optimize=mode), want)
        ctx.count('renders')
        ctx.expect(e is None, f'optimize={mode}: {e}')
    ctx.count('pixels', want.size)
    if case['step']:
        step_crop(case, node, want, ctx)
    kinds = []
    stack = [prog]
    while stack:
        p = stack.pop()
        stack += p.get('concat', [])
        ctx.count('concat', 'concat' in p)
        ctx.count('gdal', p.get('leaf', {}).get('kind') == 'load')
        for op in p['ops']:
            ctx.count('chansel', 'chan' in op or op['op'] == 'take')
            ctx.count('no_channels', chan_arg(op.get('chan', op.get('spec', 0))) in ([], slice(0, 0, None)))
            ctx.count('padded', op['op'] == 'padcrop')
            kinds.append((op['op'], op.get('kinds')))
            for k in op.get('kinds', ()):
                if k in ('neg', 'oob', 'empty'):
                    ctx.count({'neg': 'negative'}.get(k, k))
    if kinds:
        ctx.distinct(util.opnames(prog), kinds)
