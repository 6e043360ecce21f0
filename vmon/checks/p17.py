"""
The cache of open files.
"""
import os
from collections import OrderedDict

import numpy as np

from vmon import files

ID = 'P17'
TITLE = 'The handle cache keeps the most recently used entries, readers stay right'
RULE = ('random histories of dictionary operations against a list model of a least recently used cache; readers sharing a tiny cache '
        'read the right file; distinct = distinct (capacity, kinds of operations, evictions)')
QUICK, THOROUGH = 2000, 40000
REQUIRE = {'ops': 20000, 'evictions': 3000, 'gdal_reads': 400, 'hits': 2000, 'relative': 300, 'reused': 100}
ASSUMPTIONS = []


def gen(R, i, tier):
    if i % 10 == 0:
        return {'mode': 'gdal', 'cap': R.randint(1, 3), 'n': R.randint(2, 5), 'relative': R.random() < .5, 'seed': R.randint(0, 10 ** 9), 'reads': [[R.randint(0, 4), R.random() < .5, R.randint(0, 1)] for _ in range(R.randint(5, 15))]}
    cap = R.choice([1, 1, 2, 3, 4, 8, 10])
    nkeys = R.randint(1, cap * 2 + 2)
    ops = []
    for _ in range(R.randint(3, 40)):
        ops.append([R.choice(['set'] * 5 + ['get'] * 4 + ['del', 'pop', 'setdefault', 'update', 'in', 'missing', 'getm', 'len', 'copy']), R.randint(0, nkeys), R.randint(0, 99)])
    init = [[R.randint(0, nkeys), R.randint(0, 99)] for _ in range(R.choice([0, 0, 1, cap + 2]))]
    return {'mode': 'dict', 'cap': cap, 'ops': ops, 'init': init, 'default_cap': cap == 10 and R.random() < .5}


def run(case, ctx):
    from delayed_image import lazy_loaders as L
    if case['mode'] == 'gdal':
        return run_gdal(case, ctx, L)
    cap = case['cap']
    c = L.CacheDict([tuple(p) for p in case['init']], **({} if case['default_cap'] else {'cache_len': cap}))
    model = OrderedDict()

    def put(k, v):
        model[k] = v
        model.move_to_end(k)
        while len(model) > cap:
            model.popitem(last=False)
            ctx.count('evictions')
    for k, v in case['init']:
        put(k, v)
    label = f'capacity {cap} init {case["init"]}'
    done = []
    for name, k, v in case['ops']:
        done.append((name, k))
        ctx.count('ops')
        if name == 'set':
            c[k] = v
            put(k, v)
        elif name in {'get', 'missing'}:
            if name == 'missing':
                k = 1000 + k
            try:
                got = ('value', c[k])
            except KeyError:
                got = ('KeyError',)
            want = ('KeyError',)
            if k in model:
                want = ('value', model[k])
                model.move_to_end(k)
                ctx.count('hits')
            ctx.expect(got == want, f'{label} {done}: c[{k}] gave {got} expected {want}')
        elif name == 'getm':
            ctx.expect(c.get(k, 'no') == model.get(k, 'no'), f'{label} {done}: get({k})')
        elif name == 'in':
            ctx.expect((k in c) == (k in model), f'{label} {done}: {k} in c is {k in c}')
        elif name == 'del':
            if k in model:
                del model[k]
                del c[k]
        elif name == 'pop':
            ctx.expect(c.pop(k, 'no') == model.pop(k, 'no'), f'{label} {done}: pop({k})')
        elif name == 'setdefault':
            if k not in model:
                got = c.setdefault(k, v)
                put(k, v)
                ctx.expect(got == v, f'{label} {done}: setdefault gave {got}')
        elif name == 'update':
            c.update({k: v, k + 1: v + 1})
            put(k, v)
            put(k + 1, v + 1)
        elif name == 'copy':
            # a reordering of the model must not be needed to look at it
            list(c), list(c.keys()), bool(c)
        ctx.expect(len(c) <= cap, f'{label} {done}: {len(c)} entries')
        if list(c.keys()) != list(model.keys()):
            ctx.err(f'{label} {done}: holds {list(c.keys())} (oldest first), expected {list(model.keys())}')
            return
        ctx.expect(dict.__repr__(dict(OrderedDict.items(c))) == repr(dict(model)), f'{label} {done}: contents differ')
    try:
        L.CacheDict(cache_len=0)
        ctx.err('a cache without capacity was accepted')
    except AssertionError:
        pass
    ctx.distinct(cap, sorted({o[0] for o in case['ops']}), len(case['init']))


def run_gdal(case, ctx, L):
    import random
    R = random.Random(case['seed'])
    made = []
    for j in range(case['n']):
        spec = files.rand_spec(R, fmt='GTiff')
        spec['h'], spec['w'], spec['overviews'] = 6, 7, 0
        # some files have the same name
        dpath = f'{ctx.scratch}/d{j}'
        os.makedirs(dpath, exist_ok=True)
        fpath, levels = files.write(spec, dpath, tag=j)
        new = f'{dpath}/{"same" if j % 3 else j}.tif'
        for f in os.listdir(dpath):
            if f.startswith(os.path.basename(fpath)):
                os.rename(f'{dpath}/{f}', new + f[len(os.path.basename(fpath)):])
        made.append((new, levels))
    cwd = os.getcwd()
    saved, fast = L.GLOBAL_GDAL_CACHE, L.GDAL_FAST_PATH
    L.GLOBAL_GDAL_CACHE = L.CacheDict(cache_len=case['cap'])
    refs = {}
    opened = []
    recent = OrderedDict()
    from osgeo import gdal
    hooked = gdal.Open, gdal.OpenEx

    def hook(func):
        def wrapped(*args, **kw):
            opened.append(args)
            return func(*args, **kw)
        return wrapped
    try:
        gdal.Open, gdal.OpenEx = map(hook, hooked)
        for j, keep, fp in case['reads']:
            j %= case['n']
            L.GDAL_FAST_PATH = fp
            f = refs.get(j) if keep else None
            if f is None:
                fpath = made[j][0]
                if case.get('relative'):
                    os.chdir(os.path.dirname(fpath))
                    fpath = R.choice([fpath, os.path.basename(fpath)])
                f = refs[j] = L.LazyGDalFrameFile(fpath)
                del opened[:]
                got = f[1:5]
                if not case.get('relative'):
                    if j in recent:
                        ctx.count('reused')
                        ctx.expect(not opened, f'file {j} was opened again while the cache of {case["cap"]} holds {list(recent)}')
                    recent[j] = 1
                    recent.move_to_end(j)
                    if len(recent) > case['cap']:
                        recent.popitem(last=False)
            got = f[1:5]
            if case.get('relative'):
                os.chdir(cwd)
                ctx.count('relative')
            got = got[:, :, None] if got.ndim == 2 else got
            ctx.count('gdal_reads')
            ctx.expect(np.array_equal(got, made[j][1][0][1:5]), f'the reader of file {j} returned something else')
            ctx.expect(len(L.GLOBAL_GDAL_CACHE) <= case['cap'], f'{len(L.GLOBAL_GDAL_CACHE)} open handles for a capacity of {case["cap"]}')
        ctx.distinct('gdal', case['cap'], case['n'])
    finally:
        os.chdir(cwd)
        gdal.Open, gdal.OpenEx = hooked
        L.GLOBAL_GDAL_CACHE, L.GDAL_FAST_PATH = saved, fast
        for f, _ in made:
            files.cleanup(f)
