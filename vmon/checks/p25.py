"""
Nothing stays behind: memory, handles and files.
"""
import gc
import hashlib
import os
import random
import tracemalloc
import weakref

import numpy as np

from vmon import files, imggen, imgref, util
from vmon.checks import p01

ID = 'P25'
TITLE = 'Trees, readers and renders give back memory and handles and leave files alone'
RULE = ('random trees and readers are used (also failing) while weak references watch every node, source array and result, /proc/self/fd the open files and '
        'their modes, tracemalloc the memory kept by repeated renders, and the directory listing with checksums the files; distinct = distinct (kinds of operations, uses)')
QUICK, THOROUGH = 700, 14000
REQUIRE = {'watched_nodes': 4000, 'watched_arrays': 2500, 'growth': 120, 'handles': 600, 'failures': 60, 'readers': 200, 'files': 600}
ASSUMPTIONS = ['a garbage collection runs before memory and handles are counted',
               'without a global handle cache (the default), or with one of a given length']

CFGS = p01.CFGS + [
    {'p_kw': .5, 'kinds': ['load'], 'content': 'noise', 'dtypes': ('int16', 'uint16'), 'weights': [3, 1, 4, 2, 2, 1, 4, 3, 1, 1]},
    {'p_kw': .6, 'kinds': ['load'], 'content': 'noise', 'dtypes': ('int16', 'float32', 'uint8'), 'nops': [1, 5]},
]
USES = ['render', 'raw', 'optimize', 'crop', 'scale', 'take', 'undo', 'graph', 'nesting', 'xarray', 'evaluate', 'fail', 'options', 'leafs']


def gen(R, i, tier):
    if i % 5 == 4:
        spec = files.rand_spec(R, nodata=R.random() < .5)
        return {'mode': 'reader', 'spec': spec, 'cls': R.choice(['gdal', 'gdal', 'gdal', 'rasterio', 'spectral']), 'n': R.randint(1, 4),
                'cache': R.choice([None, None, 1, 2]), 'fast': R.randint(0, 1), 'seed': R.randint(0, 10 ** 6)}
    case = {'mode': 'tree', 'prog': imggen.rand_prog(R, CFGS[R.randrange(len(CFGS))]), 'uses': R.sample(USES, R.randint(2, 6)),
            'drop': R.choice(['all', 'all', 'root first']), 'fast': R.randint(0, 1), 'cache': R.choice([None, None, None, 2]), 'seed': R.randint(0, 10 ** 6)}
    return case


def open_files(dpath):
    """the open files below a folder, with their access modes"""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
            if p.startswith(dpath + '/'):
                flags = [x.split()[1] for x in open('/proc/self/fdinfo/' + fd) if x.startswith('flags:')][0]
                out.append((os.path.basename(p), int(flags, 8) & os.O_ACCMODE))
        except OSError:
            continue
    return sorted(out)


def listing(dpath):
    out = {}
    for r, _, fs in os.walk(dpath):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, dpath)] = (hashlib.md5(fh.read()).hexdigest(), os.stat(p).st_mtime_ns)
    return out


def use(node, name, R):
    import delayed_image as di
    w, h = map(int, node.dsize)
    if name == 'render':
        return node.finalize()
    if name == 'raw':
        return node.finalize(optimize=False)
    if name == 'optimize':
        return node.optimize()
    if name == 'crop':
        y, x = R.randint(0, h), R.randint(0, w)
        return node.crop((slice(y, y + 9), slice(x, x + 9))).finalize()
    if name == 'scale':
        return node.warp({'scale': .5}).finalize()
    if name == 'take':
        return node.take_channels([0]).optimize().finalize()
    if name == 'undo':
        return node.undo_warp(remove=['scale', 'offset']) if hasattr(node, 'undo_warp') else None
    if name == 'graph':
        return str(node.as_graph())
    if name == 'nesting':
        return node.nesting()
    if name == 'xarray':
        return node.as_xarray().finalize().values
    if name == 'evaluate':
        return node.evaluate()
    if name == 'options':
        return node.finalize(interpolation='nearest', antialias=False)
    if name == 'leafs':
        return list(node.leafs())
    if name == 'fail':
        k = R.randrange(3)
        if k == 0:
            return di.DelayedChannelConcat([node, di.DelayedLoad('/nonexistent/dir/x.tif', channels='gone', dsize=node.dsize, num_overviews=0)]).finalize()
        if k == 1:
            return node.dequantize({'quant_min': 3}).finalize()
        return di.DelayedChannelConcat([node, node.dequantize({'orig_dtype': 'nope', 'orig_min': 0, 'orig_max': 1, 'quant_min': 0, 'quant_max': 1})]).finalize()


class Watch:
    def __init__(self):
        self.nodes, self.arrays = 0, []
        self.base = live_nodes()

    def node(self, root):
        for n in util.walk(root):
            self.nodes += 1
            d = getattr(n, 'data', None)
            if isinstance(d, np.ndarray):
                self.array(d, 'source data')

    def array(self, a, what):
        while isinstance(a, np.ndarray):
            self.arrays.append((weakref.ref(a), what))
            a = a.base

    def anything(self, x, what):
        if isinstance(x, np.ndarray):
            self.array(x, what)
        elif hasattr(x, 'children'):
            self.node(x)
        elif isinstance(x, (list, tuple)):
            for e in x:
                self.anything(e, what)

    def alive(self):
        gc.collect()
        out = [t for r, t in self.arrays if r() is not None]
        return out + ['node'] * max(0, live_nodes() - self.base)

    def alive_arrays(self):
        gc.collect()
        return [t for r, t in self.arrays if r() is not None]


def live_nodes():
    """number of nodes of trees that exist"""
    from delayed_image import delayed_base
    cls = delayed_base.DelayedOperation
    return sum(issubclass(type(o), cls) for o in gc.get_objects())


def attempt(ctx, node, name, R):
    try:
        return use(node, name, R)
    except Exception:
        ctx.count('failures')
        return None


def tree(case, ctx, dpath):
    R = random.Random(case['seed'])
    watch = Watch()
    env = imgref.Env(dpath)
    node = imgref.build(case['prog'], env)
    before = listing(dpath)
    watch.node(node)
    sources = [weakref.ref(n.data) for n in util.walk(node) if isinstance(getattr(n, 'data', None), np.ndarray)]
    env = None
    kept = []
    for name in case['uses']:
        res = attempt(ctx, node, name, R)
        watch.anything(res, 'result of ' + name)
        if R.random() < .3:
            kept.append(res)
        del res
    kept = None
    modes = open_files(dpath)
    ctx.count('handles', len(modes))
    ctx.expect(all(m == os.O_RDONLY for _, m in modes), f'files are open for writing: {modes}')
    # renders leave nothing in the tree
    growth(case, ctx, node, dpath)
    results = Watch()
    res = attempt(ctx, node, 'render', R)
    if isinstance(res, np.ndarray):
        if not any(np.may_share_memory(util.plain(res), util.plain(r())) for r in sources):
            results.array(res, 'render')
    del res
    if results.arrays:
        ctx.expect(not results.alive_arrays(), 'the tree keeps a result after it was dropped')
    ctx.count('watched_nodes', watch.nodes)
    ctx.count('watched_arrays', len(watch.arrays))
    if case['drop'] == 'root first':
        part = list(util.walk(node))[-1]
        del node
        ok = attempt(ctx, part, 'render', R)
        del ok, part
    node = n = None
    left = watch.alive()
    ctx.expect(not left, f'{len(left)} objects are alive after everything was dropped: {sorted(set(left))[:6]}')
    handles(case, ctx, dpath)
    after = listing(dpath)
    ctx.count('files', len(after))
    ctx.expect(after == before, f'files changed: {sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))}')


def growth(case, ctx, node, dpath):
    """repeated renders keep neither memory nor handles"""
    try:
        nbytes = node.finalize().nbytes
    except Exception:
        return
    node.finalize()
    gc.collect()
    fds = len(open_files(dpath))
    if nbytes >= 20000 and ctx_budget(nbytes):
        tracemalloc.start()
        try:
            node.finalize()
            gc.collect()
            a = tracemalloc.get_traced_memory()[0]
            for _ in range(4):
                node.finalize()
            gc.collect()
            b = tracemalloc.get_traced_memory()[0]
        finally:
            tracemalloc.stop()
        ctx.count('growth')
        ctx.expect(b - a < 2 * nbytes, f'4 more renders of {nbytes} bytes keep {b - a} bytes')
    else:
        for _ in range(3):
            node.finalize()
        gc.collect()
    now = len(open_files(dpath))
    ctx.expect(now <= fds, f'repeated renders have {now} files open, {fds} at first')


def ctx_budget(nbytes):
    return nbytes < 40_000_000


def handles(case, ctx, dpath):
    gc.collect()
    left = open_files(dpath)
    limit = case['cache'] or 0
    names = {f.split('.')[0] for f, _ in left}
    ctx.expect(len(names) <= limit, f'{len(names)} files are open after everything was dropped, cache of length {limit}: {sorted(names)[:4]}')


def reader(case, ctx, dpath):
    from delayed_image import lazy_loaders
    R = random.Random(case['seed'])
    spec = case['spec']
    fpaths = []
    for k in range(case['n']):
        r = files.write(dict(spec, seed=k), dpath, k)
        fpaths.append(r[0] if isinstance(r, tuple) else r)
    before = listing(dpath)
    watch = Watch()
    cls = {'gdal': lazy_loaders.LazyGDalFrameFile, 'rasterio': lazy_loaders.LazyRasterIOFrameFile, 'spectral': lazy_loaders.LazySpectralFrameFile}[case['cls']]
    readers = []
    for fpath in fpaths:
        try:
            if case['cls'] == 'gdal':
                r = cls(fpath, nodata_method=R.choice([None, 'float', 'ma']))
                if R.random() < .5 and r.num_overviews:
                    readers.append(r.get_overview(1))
            else:
                r = cls(fpath)
            readers.append(r)
            h, w, c = r.shape
        except Exception:
            continue
        for rr in readers[-2:]:
            watch.arrays.append((weakref.ref(rr), type(rr).__name__))
        for _ in range(4):
            y, x = R.randint(0, h), R.randint(0, w)
            try:
                res = R.choice([r, readers[-1]])[y:y + 7, x:x + 7]
            except Exception:
                continue
            watch.anything(res, 'data of a reader')
            res = None
    ctx.count('readers', len(readers))
    modes = open_files(dpath)
    ctx.count('handles', len(modes))
    ctx.expect(all(m == os.O_RDONLY for _, m in modes), f'files are open for writing: {modes}')
    ctx.count('watched_arrays', len(watch.arrays))
    r = rr = readers = None
    left = watch.alive()
    ctx.expect(not left, f'{len(left)} objects are alive after everything was dropped: {sorted(set(left))[:6]}')
    handles(case, ctx, dpath)
    after = listing(dpath)
    ctx.count('files', len(after))
    ctx.expect(after == before, f'files changed: {sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))}')


def run(case, ctx):
    from delayed_image import lazy_loaders
    dpath = os.path.realpath(os.path.join(ctx.scratch, 'p25'))
    os.makedirs(dpath, exist_ok=True)
    for f in os.listdir(dpath):
        os.unlink(os.path.join(dpath, f))
    old = lazy_loaders.GLOBAL_GDAL_CACHE, lazy_loaders.GDAL_FAST_PATH
    lazy_loaders.GDAL_FAST_PATH = case['fast']
    if case['cache']:
        lazy_loaders.GLOBAL_GDAL_CACHE = lazy_loaders.CacheDict(cache_len=case['cache'])
    gc.collect()
    gc.freeze()
    try:
        (tree if case['mode'] == 'tree' else reader)(case, ctx, dpath)
    finally:
        lazy_loaders.GLOBAL_GDAL_CACHE, lazy_loaders.GDAL_FAST_PATH = old
        gc.unfreeze()
    if case['mode'] == 'tree':
        ctx.distinct(util.opnames(case['prog']), case['uses'], case['drop'])
    else:
        ctx.distinct(case['cls'], case['spec']['fmt'], case['spec']['dtype'], case['n'])
