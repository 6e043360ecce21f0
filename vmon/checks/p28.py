"""
GDAL is optional: without it trees give the same results.
"""
import os
import pickle
import shutil
import subprocess
import sys

import numpy as np

from vmon import imggen, imgref, util
from vmon.checks import p01, p24

ID = 'P28'
TITLE = 'Without GDAL the same files give the same images'
RULE = ('batches of random trees over files of formats that other libraries read too (png, tif, without overviews), in one interpreter with GDAL and in one where it cannot be '
        'imported: sizes, channels, renders, optimized trees, crops and derived results are equal bit by bit, nodata handling (which needs GDAL) is refused and '
        'not ignored; distinct = distinct (formats, operations)')
QUICK, THOROUGH = 24, 600
REQUIRE = {'results': 3000, 'renders': 1000, 'files': 300, 'refused': 60, 'exact': 300}
ASSUMPTIONS = ['formats whose shape the other libraries can tell (PIL: no files of several bands that are not uint8)']
TIMEOUT = 600

NPROG = 24
CFGS = p01.CFGS + [
    {'kinds': ['load'], 'content': 'noise', 'dtypes': ('uint8', 'uint8', 'uint16', 'float32', 'int16'), 'nops': [0, 4]},
    {'kinds': ['load'], 'content': 'noise', 'dtypes': ('uint8',), 'weights': [3, 2, 2, 1, 2, 1, 2, 1, 2, 1]},
]


def gen(R, i, tier):
    progs = []
    for k in range(NPROG):
        cfg = dict(CFGS[(i + k) % len(CFGS)])
        if k % 2:
            cfg = dict(CFGS[-1 - k % 4 // 2])
        p = {'prog': imggen.rand_prog(R, cfg), 'seed': R.randint(0, 10 ** 6)}
        for leaf in p24.walk_leafs(p['prog']):
            if leaf['kind'] == 'load':
                leaf['overviews'] = 0
                leaf['nodata_method'] = None
                leaf.pop('nodata', None)
                if leaf['dtype'] == 'float64' or leaf['c'] not in (1, 3, 4):
                    leaf['kind'] = 'ident'
                elif leaf['c'] > 1:
                    leaf['dtype'], leaf['format'] = 'uint8', 'png'
                else:
                    leaf['format'] = R.choice(['png', 'tif'] if leaf['dtype'] in ('uint8', 'uint16') else ['tif'])
        progs.append(p)
    return {'progs': progs}


CHILD = '''
import sys
sys.modules['osgeo'] = None
sys.modules['osgeo.gdal'] = None
sys.path[0:0] = [sys.argv[2], sys.argv[1]]
from vmon.checks import p28
p28.child(*sys.argv[3:5])
'''


def write(leaf, d, n):
    arr = imgref.leaf_array(leaf)
    fpath = os.path.join(d, f'file{n}.{leaf["format"]}')
    if leaf['format'] == 'tif':
        imgref.write_tif(fpath, arr, block=leaf.get('block', None))
    elif arr.dtype == np.uint8:
        import PIL.Image
        PIL.Image.fromarray(arr if arr.shape[2] > 1 else arr[:, :, 0]).save(fpath)
    else:
        import cv2
        assert cv2.imwrite(fpath, arr)
    return fpath


def leafs_of(node):
    import delayed_image as di
    return [n for n in util.walk(node) if isinstance(n, di.DelayedLoad)]


def perform(p):
    """what is observable of a program"""
    node = imgref.build(p['prog'], imgref.Env(None))
    out = [('leafs', [(tuple(n.shape), tuple(n.dsize), n.num_overviews, p24.full_hash(n.finalize())) for n in leafs_of(node)])]
    return out + p24.perform(node, p)


def child(fpath, opath):
    """run by the interpreter without GDAL"""
    import warnings
    warnings.simplefilter('ignore')
    import delayed_image as di
    with open(fpath, 'rb') as f:
        progs = pickle.load(f)
    out = []
    refused = []
    for p in progs:
        out.append(perform(p))
        for leaf in p24.walk_leafs(p['prog']):
            if 'fpath' in leaf and len(refused) < 12:
                for m in ('auto', 'float', 'ma'):
                    try:
                        x = di.DelayedLoad(leaf['fpath'], nodata_method=m).prepare().finalize()
                        refused.append((m, f'gives {x.dtype} {x.shape}'))
                    except Exception as ex:
                        refused.append((m, ex.__class__.__name__))
    with open(opath, 'wb') as f:
        pickle.dump((out, refused, 'osgeo.gdal' in sys.modules and sys.modules['osgeo.gdal'] is not None), f)


def run(case, ctx):
    import delayed_image
    repo = os.path.dirname(os.path.dirname(os.path.abspath(delayed_image.__file__)))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    d = os.path.join(ctx.scratch, 'files')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    n = 0
    for p in case['progs']:
        for leaf in p24.walk_leafs(p['prog']):
            if leaf['kind'] == 'load':
                leaf['fpath'] = write(leaf, d, n)
                n += 1
                got = np.asarray(delayed_image.DelayedLoad(leaf['fpath']).prepare().finalize())
                ctx.count('exact')
                arr = imgref.leaf_array(leaf)
                ctx.expect(got.shape == arr.shape and np.array_equal(got, arr), f'{leaf["format"]} {leaf["dtype"]} {arr.shape}: read as {got.dtype} {got.shape}')
    ctx.count('files', n)
    fpath, opath = os.path.join(ctx.scratch, 'in.pkl'), os.path.join(ctx.scratch, 'out.pkl')
    with open(fpath, 'wb') as f:
        pickle.dump(case['progs'], f)
    if os.path.exists(opath):
        os.unlink(opath)
    p = subprocess.run([sys.executable, '-c', CHILD, root, repo, fpath, opath], env=dict(os.environ, PYTHONPATH=repo), capture_output=True, text=True, timeout=300)
    ok = p.returncode == 0 and os.path.exists(opath)
    ctx.expect(ok, f'interpreter without GDAL: exit {p.returncode}, {p.stderr[-600:]!r}')
    if not ok:
        return
    with open(opath, 'rb') as f:
        out, refused, had = pickle.load(f)
    if had:
        raise RuntimeError('GDAL was there')
    for m, what in refused:
        ctx.count('refused')
        ctx.expect(not what.startswith('gives'), f'nodata_method={m} without GDAL {what}')
    for k, (p, got) in enumerate(zip(case['progs'], out)):
        want = perform(p)
        label = f'program {k} of {sorted({f"{x["format"]} {x["dtype"]} {x["c"]}" for x in p24.walk_leafs(p["prog"]) if "format" in x})}, {util.opnames(p["prog"])}'
        ctx.expect(len(want) == len(got), f'{label}: {len(got)} results without GDAL, {len(want)} with it')
        for (name, a), (_, b) in zip(want, got):
            ctx.count('results')
            ctx.count('renders', name in ('leafs', 'render', 'raw', 'crop', 'scale', 'take', 'again'))
            ctx.expect(a == b or repr(a) == repr(b), f'{label}: {name} is {str(b)[:200]} without GDAL, else {str(a)[:200]}')
    ctx.distinct([util.opnames(p['prog']) for p in case['progs']])
