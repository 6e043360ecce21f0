"""
Different spellings of one operation mean the same.
"""
import pathlib

import numpy as np

from vmon import imggen, imgref, util
from vmon.checks import p01, p24

ID = 'P27'
TITLE = 'Every spelling of an operation means the same'
RULE = ('random trees are built in the plain spelling and in random other ones (types of slices and numbers, methods and indexing, forms of transforms, sizes, colors '
        'and channels, memory layouts of the data, nested concatenations): renders with and without optimization, sizes and channels are equal; '
        'distinct = distinct (kinds of operations, spellings used)')
QUICK, THOROUGH = 1500, 30000
REQUIRE = {'respelled': 9000, 'renders': 6000, 'nonempty': 4000, 'leafs': 2500, 'kinds': 60}
ASSUMPTIONS = ['spellings named in the documentation or accepted by the libraries that interpret them (kwimage.Affine.coerce, numpy slices)']

CFGS = p01.CFGS + [
    {'p_kw': .6, 'content': 'noise', 'dtypes': ('int16', 'float32', 'uint8'), 'nops': [1, 5]},
    {'p_kw': .3, 'content': 'noise', 'dtypes': ('int16', 'float32', 'uint8'), 'nops': [2, 6], 'p_lazy': .4},
]


def gen(R, i, tier):
    prog = imggen.rand_prog(R, CFGS[i % len(CFGS)])
    if 'concat' in prog and R.random() < .3:
        prog['ops'] = []
    m = imgref.model(prog)
    c, (w, h) = len(m.chans), m.dsize
    if R.random() < .3 and c and w and h:
        ch = R.choice([[R.randrange(c) for _ in range(R.randint(1, min(c, 4)))], list(range(c))[:4]])
        op = {'op': 'padcrop', 'y': [R.randint(-9, h // 2), R.randint(h // 2, h + 9)], 'x': [R.randint(-9, w // 2), R.randint(w // 2, w + 9)], 'chan': ch}
        if R.random() < .5:
            op['pad'] = R.randint(0, 9)
        prog.setdefault('ops', []).append(op)
    elif R.random() < .3 and m.names is not None and len(set(m.names)) == c > 1:
        prog.setdefault('ops', []).append({'op': 'take', 'spec': '|'.join(R.sample(m.names, R.choice([c, c, R.randint(1, c)])))})
    return {'prog': prog, 'seed': R.randint(0, 10 ** 6), 'n': 2}


class Speller:
    def __init__(self, R, ctx, env):
        self.R, self.ctx, self.env = R, ctx, env
        self.used = []

    def pick(self, kind, options):
        """options: {name: function}"""
        name = self.R.choice(sorted(options))
        self.used.append(f'{kind}:{name}')
        return options[name]()

    # -------------------------------------------------------- arguments

    def number(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return v
        o = {'plain': lambda: v}
        if isinstance(v, int):
            o['int64'] = lambda: np.int64(v)
            o['float'] = lambda: float(v)
        else:
            o['float64'] = lambda: np.float64(v)
        return self.pick('number', o)

    def index(self, v):
        if v is None:
            return None
        return self.pick('index', {'plain': lambda: v, 'int64': lambda: np.int64(v), 'int32': lambda: np.int32(v)})

    def slice(self, s, n):
        start, stop, _ = s.indices(n)
        o = {'plain': lambda: s, 'numpy': lambda: slice(self.index(s.start), self.index(s.stop)), 'step': lambda: slice(s.start, s.stop, None),
             'step1': lambda: slice(s.start, s.stop, 1)}
        if stop >= start:
            o['full'] = lambda: slice(start, stop)
            if start < n:
                o['neg'] = lambda: slice(start - n, stop)
            if 0 < stop < n:
                o['negstop'] = lambda: slice(start, stop - n)
            if stop == n:
                o['open'] = lambda: slice(start, None)
                o['over'] = lambda: slice(start, n + 5)
            if start == 0:
                o['none'] = lambda: slice(None, stop)
        return self.pick('slice', o)

    def transform(self, tf):
        import kwimage
        A = imgref.coerce_tf(tf)
        o = {'Affine': lambda: A, 'array': lambda: np.asarray(A), 'json': lambda: A.__json__(),
             'copy': lambda: kwimage.Affine(np.array(A.matrix))}
        if np.array_equal(np.asarray(A), np.eye(3)):
            o['None'] = lambda: None
        if isinstance(tf, dict):
            o['dict'] = lambda: {k: tuple(v) if isinstance(v, list) else v for k, v in tf.items()}
            if not any(isinstance(v, list) for k, v in tf.items() if k == 'about'):
                o['lists'] = lambda: dict(tf)
            if 'scale' in tf and not isinstance(tf['scale'], (list, tuple)):
                o['pair'] = lambda: dict(imgref_tuple(tf), scale=(tf['scale'], tf['scale']))
        return self.pick('transform', o)

    def size(self, dsize):
        if dsize == 'auto' or dsize is None:
            return dsize
        a, b = dsize
        return self.pick('dsize', {'tuple': lambda: (a, b), 'ints': lambda: (np.int64(a), np.int64(b))})

    def options(self, op):
        kw = imgref.warp_kwargs(op)
        if 'interpolation' in kw:
            v = kw['interpolation']
            name = v if isinstance(v, str) else {b: a for a, b in imgref.CODES.items()}[v]
            kw['interpolation'] = self.pick('interpolation', {'name': lambda: name, 'code': lambda: imgref.CODES[name]} if name in imgref.CODES else {'name': lambda: name})
        elif self.R.random() < .3:
            kw['interpolation'] = self.pick('default', {'linear': lambda: 'linear'})
        if 'antialias' in kw:
            kw['antialias'] = self.pick('bool', {'bool': lambda: kw['antialias'], 'int': lambda: int(kw['antialias']), 'numpy': lambda: np.bool_(kw['antialias'])})
        if 'border_value' in kw and not isinstance(kw['border_value'], (str, list, tuple)):
            v = kw['border_value']
            kw['border_value'] = self.pick('border', {'plain': lambda: v, 'float': lambda: float(v), 'numpy': lambda: np.float64(v)})
        if 'backend' not in kw and self.R.random() < .2:
            kw['backend'] = self.pick('default', {'backend': lambda: 'auto'})
        return kw

    # ------------------------------------------------------- operations

    def apply(self, node, op):
        name = op['op']
        w, h = map(int, node.dsize)
        c = node.num_channels
        import delayed_image as di
        if name == 'padcrop':
            return self.padcrop(node, op, w, h, c)
        if name == 'crop':
            space = None if op.get('y', 0) == 'none' else (imgref.sl(op['y']), imgref.sl(op['x']))
            ch = op.get('chan', None)
            if space is not None:
                space = (self.slice(space[0], h), self.slice(space[1], w))
            if ch is not None:
                ch = self.bands(ch, c)
            if ch is None and space is None:
                return node.crop(space, ch)
            o = {'call': lambda: node.crop(space, ch), 'class': lambda: di.DelayedCrop(node, space, ch), 'keywords': lambda: node.crop(space_slice=space, chan_idxs=ch),
                 'defaults': lambda: node.crop(space, ch, clip=True, wrap=True, pad=0), 'bands last': lambda: node.crop(space).crop(None, ch) if ch is not None and space is not None else node.crop(space, ch)}
            if space is not None:
                if op.get('lazy'):
                    return node.crop(space, ch, lazy=True)
                o['index'] = lambda: node[space + (ch,)] if ch is not None else node[space]
                o['index none'] = lambda: node[space + (ch,)]
                o['list'] = lambda: node.crop(list(space), ch)
            return self.pick('crop', o)
        if name == 'warp':
            dsize = op.get('dsize', 'auto')
            tf = self.transform(op['tf'])
            kw = self.options(op)
            if op.get('lazy'):
                kw['lazy'] = True
            o = {'call': lambda: node.warp(tf, dsize=self.size(dsize), **kw), 'keywords': lambda: node.warp(transform=tf, dsize=self.size(dsize), **kw)}
            if not op.get('lazy'):
                o['class'] = lambda: di.DelayedWarp(node, tf, dsize=self.size(dsize), **kw)
            if dsize == 'auto':
                o['omitted'] = lambda: node.warp(tf, **kw)
            if isinstance(op['tf'], dict) and set(op['tf']) == {'scale'}:
                s = op['tf']['scale']
                s = tuple(s) if isinstance(s, list) else s
                o['scale'] = lambda: node.scale(s, dsize=self.size(dsize), **kw)
            return self.pick('warp', o)
        if name == 'scale':
            s = tuple(op['s']) if isinstance(op['s'], list) else op['s']
            kw = self.options(op)
            o = {'call': lambda: node.scale(s, **kw), 'warp': lambda: node.warp({'scale': s}, **kw), 'array': lambda: node.scale(np.array(s, dtype=float) if isinstance(s, tuple) else s, **kw)}
            return self.pick('scale', o)
        if name == 'resize':
            kw = self.options(op)
            a, b = op['dsize']
            o = {'call': lambda: node.resize(self.size((a, b)), **kw)}
            if w and h:
                o['warp'] = lambda: node.warp({'scale': (a / w, b / h)}, dsize=(a, b), **kw)
            return self.pick('resize', o)
        if name == 'dequant':
            q = dict(op['q'])
            o = {'plain': lambda: q, 'numpy': lambda: {k: self.number(v) if k != 'nodata' else v for k, v in q.items()}, 'order': lambda: dict(reversed(q.items())),
                 'defaults': lambda: {'nodata': None, 'quant_min': 0, **q},
                 'dtype': lambda: dict(q, orig_dtype=np.dtype(q['orig_dtype'])) if 'orig_dtype' in q else q}
            q = self.pick('quantization', o)
            return self.pick('dequantize', {'call': lambda: node.dequantize(q), 'class': lambda: di.DelayedDequantize(node, q)})
        if name == 'overview':
            k = op['k']
            return self.pick('overview', {'call': lambda: node.get_overview(k), 'keyword': lambda: node.get_overview(overview=k), 'class': lambda: di.DelayedOverview(node, k)})
        if name == 'take':
            return self.take(node, op)
        return imgref.apply_op(node, op)

    def padcrop(self, node, op, w, h, c):
        space = (imgref.sl(op['y']), imgref.sl(op['x']))
        space = tuple(self.pick('padded slice', {'plain': lambda: s, 'numpy': lambda: slice(self.index(s.start), self.index(s.stop)), 'step': lambda: slice(s.start, s.stop, None)})
                      for s in space)
        pad = op.get('pad', 0)
        ch = op.get('chan')
        if isinstance(ch, dict):
            ch = slice(*ch['slice'])
        elif ch is not None:
            ch = self.bands(ch, c)
        o = {}
        if isinstance(pad, list):
            pairs = [tuple(p) if isinstance(p, list) else (p, p) for p in pad]
            o['mixed'] = lambda: [tuple(p) if isinstance(p, list) else p for p in pad]
        else:
            pairs = [(pad, pad)] * 2
            o['one'] = lambda: pad
            o['two'] = lambda: [pad, pad]
        o['pairs'] = lambda: pairs
        pad = self.pick('pad', o)
        return self.pick('padcrop', {'bands': lambda: node.crop(space, chan_idxs=ch, clip=False, wrap=False, pad=pad),
                                     'bands first': lambda: (node if ch is None else node.crop(None, ch)).crop(space, clip=False, wrap=False, pad=pad),
                                     'positional': lambda: node.crop(space, ch, False, False, pad)})

    def bands(self, ch, c):
        if not isinstance(ch, list) or c is None:
            return ch
        o = {'list': lambda: ch, 'numpy ints': lambda: [np.int64(k) for k in ch]}
        if len(ch) and all(0 <= k < c for k in ch):
            o['negative'] = lambda: [k - c for k in ch]
            if len(ch) == 1:
                o['int'] = lambda: ch[0]
                o['numpy int'] = lambda: np.int64(ch[0] - c)
            if len(ch) > 1 and ch[0] > 0 and ch == list(range(ch[0], ch[0] - len(ch), -1)):
                o['backward slice'] = lambda: slice(ch[0], None if ch[-1] == 0 else ch[-1] - 1, -1)
            if ch == list(range(ch[0], ch[0] + len(ch))):
                o['slice'] = lambda: slice(ch[0], ch[0] + len(ch))
        return self.pick('bands', o)

    def take(self, node, op):
        import delayed_image as di
        spec = op['spec']
        kw = {'missing_channel_policy': op['policy']} if 'policy' in op else {}
        o = {'call': lambda: node.take_channels(spec, **kw), 'keyword': lambda: node.take_channels(channels=spec, **kw)}
        if isinstance(spec, str):
            f = di.FusedChannelSpec.coerce(spec)
            o['spec'] = lambda: node.take_channels(f, **kw)
            o['listed'] = lambda: node.take_channels('|'.join(f.as_list()), **kw)
            o['names'] = lambda: node.take_channels(di.FusedChannelSpec(f.as_list()), **kw)
            o['fused'] = lambda: node.take_channels(di.ChannelSpec(spec).fuse(), **kw)
            have = node.channels.as_list() if node.channels is not None else []
            names = f.as_list()
            if names and all(have.count(n) == 1 for n in names):
                ix = [have.index(n) for n in names]
                o['indexes'] = lambda: node.take_channels(ix)
        return self.pick('take', o)

    # ------------------------------------------------------------ trees

    def leaf(self, leaf):
        import delayed_image as di
        self.ctx.count('leafs')
        chans = leaf.get('channels', None)
        if isinstance(chans, str):
            chans = self.pick('channels', {'text': lambda: leaf['channels'], 'spec': lambda: di.FusedChannelSpec.coerce(leaf['channels']), 'channelspec': lambda: di.ChannelSpec(leaf['channels'])})
        if leaf['kind'] == 'ident':
            a = imgref.leaf_array(leaf)
            o = {'C': lambda: a, 'F': lambda: np.asfortranarray(a), 'readonly': lambda: frozen(a), 'strided': lambda: strided(a), 'reversed': lambda: a[::-1].copy()[::-1],
                 'bands first': lambda: np.ascontiguousarray(a.transpose(2, 0, 1)).transpose(1, 2, 0), 'offset': lambda: np.pad(a, ((1, 2), (2, 1), (0, 0)))[1:-2, 2:-1],
                 'swapped': lambda: a.astype(a.dtype)}
            if a.shape[2] == 1:
                o['flat'] = lambda: a[:, :, 0]
            data = self.pick('layout', o)
            return self.pick('ident', {'call': lambda: di.DelayedIdentity(data, channels=chans), 'keyword': lambda: di.DelayedIdentity(data=data, channels=chans),
                                       'dsize': lambda: di.DelayedIdentity(data, channels=chans, dsize=(a.shape[1], a.shape[0]))})
        if leaf['kind'] == 'load':
            fpath = imgref.leaf_file(leaf, self.env)
            p = self.pick('path', {'str': lambda: str(fpath), 'Path': lambda: pathlib.Path(fpath)})
            node = di.DelayedLoad(p, channels=chans, nodata_method=leaf.get('nodata_method', None))
            return self.pick('prepare', {'once': lambda: node.prepare(), 'twice': lambda: node.prepare().prepare(),
                                         'known': lambda: known(node, p, chans, leaf)})
        if leaf['kind'] == 'nans':
            return di.DelayedNans(dsize=self.size((leaf['w'], leaf['h'])), channels=chans if chans is not None else leaf['c'])
        return imgref.build_leaf({k: v for k, v in leaf.items() if k != 'share'}, self.env)

    def build(self, prog):
        import delayed_image as di
        if 'concat' in prog:
            parts = [self.build(p) for p in prog['concat']]
            o = {'list': lambda: di.DelayedChannelConcat(parts), 'tuple': lambda: di.DelayedChannelConcat(tuple(parts)), 'keyword': lambda: di.DelayedChannelConcat(parts=parts),
                 'dsize': lambda: di.DelayedChannelConcat(parts, dsize=parts[0].dsize)}
            if len(parts) > 2:
                o['nested'] = lambda: di.DelayedChannelConcat([di.DelayedChannelConcat(parts[:2])] + parts[2:])
            node = self.pick('concat', o)
        else:
            node = self.leaf(prog['leaf'])
        for op in prog.get('ops', ()):
            self.ctx.count('respelled')
            node = self.apply(node, op)
        return node


def imgref_tuple(tf):
    return {k: tuple(v) if isinstance(v, list) else v for k, v in tf.items()}


def frozen(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def strided(a):
    big = np.zeros((a.shape[0] * 2, a.shape[1] * 3, a.shape[2]), a.dtype)
    big[::2, ::3] = a
    return big[::2, ::3]


def known(node, p, chans, leaf):
    import delayed_image as di
    ref = node.prepare()
    return di.DelayedLoad(p, channels=chans, dsize=ref.dsize, nodata_method=leaf.get('nodata_method', None), num_overviews=ref.num_overviews).prepare()


INEXACT = ('transform:', 'scale:', 'resize:', 'warp:scale', 'quantization:numpy')


def warps(node):
    return [type(n).__name__ for _, n in node.optimize()._traverse()].count('DelayedWarp')


def nearly(got, want):
    """
    The same up to the last digits of a transform, which move samples by up to 1/32
    pixel (or one pixel, for the nearest one, at ties)
    """
    a, b = (np.ma.filled(x, 0).astype(float) for x in (got, want))
    if a.shape != b.shape:
        return f'shape {a.shape} instead of {b.shape}'
    if not a.size:
        return None
    bad = np.isfinite(a) != np.isfinite(b)
    # (a sample that moves may come from beyond the data, where data ends or at the edges)
    fin = np.lib.stride_tricks.sliding_window_view(np.pad(np.isfinite(b).astype(float), ((2, 2), (2, 2), (0, 0)), constant_values=.5), (5, 5), (0, 1))
    if (bad & (fin.min((-1, -2)) == fin.max((-1, -2)))).mean() > .01:
        return f'{bad.sum()} of {bad.size} pixels are nan in only one'
    a, b = np.where(np.isfinite(a + b), a, 0), np.where(np.isfinite(a + b), b, 0)
    P = np.pad(b, ((2, 2), (2, 2), (0, 0)), mode='edge')
    W = np.lib.stride_tricks.sliding_window_view(P, (5, 5), (0, 1))
    lo, hi = W.min((-1, -2)), W.max((-1, -2))
    # (also the integral sizes of intermediate images depend on them)
    tol = 1 + .02 * (b.max() - b.min())
    off = (a < lo - tol) | (a > hi + tol)
    if (off & ~bad).mean() > .01:
        return f'{off.sum()} of {off.size} pixels are outside of the values around them'
    err = np.abs(a - b).mean()
    if err > 1e-3 + .01 * (b.max() - b.min()):
        return f'mean difference {err:.4g}, range {b.min():.6g} to {b.max():.6g}'
    return None


def outcome(f):
    try:
        return f()
    except Exception as ex:
        return ex


KINDS = set()


def run(case, ctx):
    import random
    R = random.Random(case['seed'])
    prog = case['prog']
    plain = imgref.build(prog, imgref.Env(ctx.scratch))
    want = {}
    for optimize in (True, False):
        want[optimize] = outcome(lambda: plain.finalize(optimize=optimize))
    for _ in range(case['n']):
        sp = Speller(R, ctx, imgref.Env(ctx.scratch))
        node = sp.build(prog)
        label = ', '.join(sp.used)
        for u in sp.used:
            if u not in KINDS:
                KINDS.add(u)
                ctx.count('kinds')
        ctx.expect(tuple(map(int, node.dsize)) == tuple(map(int, plain.dsize)), f'size {node.dsize} instead of {plain.dsize} [{label}]')
        a, b = (x.channels and x.channels.as_list() for x in (node, plain))
        ctx.expect(a == b, f'channels {a} instead of {b} [{label}]')
        ctx.expect(node.num_channels == plain.num_channels, f'{node.num_channels} channels instead of {plain.num_channels} [{label}]')
        for optimize in (True, False):
            got = outcome(lambda: node.finalize(optimize=optimize))
            ctx.count('renders')
            w = want[optimize]
            if isinstance(w, Exception) or isinstance(got, Exception):
                ctx.expect(type(w) is type(got), f'optimize={optimize}: {got!r:.200} instead of {w!r:.200} [{label}]')
                continue
            ctx.count('nonempty', w.size > 0)
            d = util.same(got, w, 0)
            if d is not None and any(u.startswith(INEXACT) for u in sp.used):
                ctx.count('nearly')
                d = nearly(got, w)
            if d is not None and 'interpolation:code' in sp.used and optimize and warps(node) != warps(plain):
                # (an interpolation given as code and one given by name are not fused, which leaves an inner border)
                ctx.count('unfused')
                d = None
            ctx.expect(got.dtype == w.dtype, f'optimize={optimize}: type {got.dtype} instead of {w.dtype} [{label}]')
            ctx.expect(d is None, f'optimize={optimize}: {d} [{label}]')
        ctx.distinct(util.opnames(prog), sorted(set(sp.used)))
