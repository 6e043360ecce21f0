"""
Failures.
"""
import contextlib
import io
import os
import random
import warnings

import numpy as np

from vmon import files, imggen, imgref, util

ID = 'P21'
TITLE = 'A failing read or operation raises, never invents pixels, and leaves trees usable'
RULE = ('inject: each read and resampling call of a render is made to fail in turn (raise, return nothing, run out of memory), and the tree is '
        'used again after it; requests that cannot be fulfilled; file: missing, truncated, overwritten and vanished files; distinct = distinct (operations, failing call, kind)')
QUICK, THOROUGH = 600, 12000
REQUIRE = {'points': 1500, 'raised': 900, 'recovered': 1500, 'files': 150, 'refused': 100, 'impossible': 2400, 'impossible_reads': 1000}
ASSUMPTIONS = ['GDAL is trusted to report what it cannot read']
TIMEOUT = 90


def gen(R, i, tier):
    if i % 3 == 2:
        spec = files.rand_spec(R, fmt=R.choice(['GTiff', 'GTiff', 'PNG', 'ENVI', 'HFA']))
        spec['h'], spec['w'] = R.randint(20, 60), R.randint(20, 60)
        return {'mode': 'file', 'spec': spec, 'kind': R.choice(['missing', 'missing_prepared', 'truncate', 'truncate', 'empty', 'garbage', 'directory', 'vanish', 'replace']),
                'exc': R.random() < .5, 'fast': R.randint(0, 1), 'cut': round(R.uniform(.05, .95), 2), 'concat': R.random() < .4, 'seed': R.randint(0, 10 ** 9)}
    while True:
        cfg = {'nops': (1, 4), 'nops_outer': (0, 4), 'max_size': 160, 'p_kw': .2}
        if i % 3:
            cfg['kinds'] = ('load',)
        prog = imggen.rand_prog(R, cfg, depth=R.choice([0, 0, 1, 2]))
        if util.nops(prog):
            break
    return {'mode': 'inject', 'prog': prog, 'fast': R.randint(0, 1), 'exc': R.random() < .5, 'seed': R.randint(0, 10 ** 9)}


class Boom(Exception):
    pass


class Faults:
    """counts the calls into GDAL and kwimage, and fails the one asked for"""

    def __init__(self, at=None, kind=None, sticky=False):
        self.at, self.kind, self.sticky = at, kind, sticky
        self.n = 0
        self.fired = 0
        self.calls = []
        self.undo = []

    def __enter__(self):
        import kwimage
        from osgeo import gdal
        for obj, name in [(gdal.Band, 'ReadAsArray'), (gdal.Dataset, 'ReadAsArray'), (kwimage, 'warp_affine'), (kwimage, 'imresize')]:
            orig = getattr(obj, name)

            def inner(*args, _orig=orig, _name=f'{obj.__name__}.{name}', **kw):
                self.n += 1
                self.calls.append(_name)
                if self.at is not None and (self.n == self.at or self.sticky and self.n >= self.at and _name.split('.')[-1] == self.calls[self.at - 1].split('.')[-1]):
                    self.fired += 1
                    if self.kind == 'none' and 'ReadAsArray' in _name:
                        return None
                    if self.kind == 'memory':
                        raise MemoryError('injected')
                    raise RuntimeError('injected')
                return _orig(*args, **kw)
            self.undo.append((obj, name, orig))
            setattr(obj, name, inner)
        return self

    def __exit__(self, *a):
        for obj, name, orig in self.undo:
            setattr(obj, name, orig)


def run(case, ctx):
    from delayed_image import lazy_loaders as L
    from osgeo import gdal
    saved, had = L.GDAL_FAST_PATH, gdal.GetUseExceptions()
    L.GDAL_FAST_PATH = case['fast']
    gdal.PushErrorHandler('CPLQuietErrorHandler')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            (run_inject if case['mode'] == 'inject' else run_file)(case, ctx, gdal)
    finally:
        gdal.PopErrorHandler()
        (gdal.UseExceptions if had else gdal.DontUseExceptions)()
        L.GDAL_FAST_PATH = saved


def run_inject(case, ctx, gdal):
    R = random.Random(case['seed'])
    prog = case['prog']
    node = imgref.build(prog, imgref.Env(ctx.scratch))
    run_impossible(node, prog, util.plain(node.finalize(optimize=True)), R, ctx)
    for opt in (True, False):
        want = util.plain(node.finalize(optimize=opt))
        before = util.snapshot(node)
        with Faults() as f:
            got = util.plain(node.finalize(optimize=opt))
        ctx.expect(util.same(got, want) is None, 'two renders differ')
        total = f.n
        points = list(range(1, total + 1))
        if len(points) > 6:
            points = sorted(R.sample(points, 6))
        for k in points:
            kind = R.choice(['raise', 'none', 'memory'])
            sticky = R.random() < .6
            label = f'optimize={opt} call {k} of {total} ({f.calls[k - 1]}) fails with {kind}{" for good" if sticky else ""}'
            ctx.count('points')
            (gdal.UseExceptions if case['exc'] else gdal.DontUseExceptions)()
            with Faults(k, kind, sticky) as inj:
                try:
                    got = util.plain(node.finalize(optimize=opt))
                except Exception:
                    ctx.count('raised')
                else:
                    # a second attempt at the read may have succeeded
                    e = util.same(got, want)
                    ctx.expect(e is None, f'{label}: rendered something else: {e}')
                    resample = 'kwimage' in f.calls[k - 1]
                    ctx.expect(not (inj.fired and (sticky or resample)), f'{label}: no error was raised')
            gdal.UseExceptions()
            d = util.snapdiff(before, util.snapshot(node))
            ctx.expect(not d, f'{label}: the tree changed: {d}')
            e = util.same(util.plain(node.finalize(optimize=opt)), want)
            ctx.expect(e is None, f'after {label}: {e}')
            ctx.count('recovered')
            ctx.distinct(util.opnames(prog), opt, k, kind, sticky)


def run_impossible(node, prog, want, R, ctx):
    """requests that cannot be fulfilled are refused by the call or by the render"""
    import delayed_image as di
    h, w, c = want.shape
    win = (slice(0, 2), slice(0, 2))
    other = di.DelayedIdentity(np.zeros((h + R.choice([1, -1, 0]) if h > 2 else h + 1, w + R.choice([1, 3]), 1), dtype=np.float32), channels='other')
    # same area, other sides; an inner part among fitting ones
    turned = di.DelayedIdentity(np.zeros((w, h, 1), dtype=np.float32), channels='turned')
    fit = [di.DelayedIdentity(np.zeros((h, w, 1), dtype=np.float32), channels=f'fit{i}') for i in range(R.randint(1, 3))]
    among = fit[:1] + [node] + fit[1:]
    among.insert(R.randint(0, len(among)), R.choice([other, turned] if h != w else [other]))
    known = node.channels.as_list() if node.channels is not None else []
    names = [R.choice(known) for _ in range(R.randint(0, 2 * len(known)))] if known else []
    for i in range(R.randint(1, 2)):
        names.insert(R.randint(0, len(names)), f'absent{i}')
    requests = {
        'parts of different sizes among others': lambda: di.DelayedChannelConcat(among),
        'a window of parts of different sizes among others': lambda: di.DelayedChannelConcat(among).crop(win),
        'a channel of parts of different sizes among others': lambda: di.DelayedChannelConcat(among).take_channels(R.choice(['fit0', [0], [-1]])),
        f'channels {names}, not to be invented': lambda: node.take_channels('|'.join(names), missing_channel_policy='error'),
        f'channels {names} in a window, not to be invented': lambda: node.crop(win).take_channels('|'.join(names), missing_channel_policy='error'),
        'absent channels with an unknown policy': lambda: node.take_channels('|'.join(names), missing_channel_policy='bogus'),
        'a single slice': lambda: node[0:2],
        'four slices': lambda: node[0:2, 0:2, 0:1, 0:1],
        'a band that does not exist': lambda: node.take_channels([0, c]),
        'a negative band that does not exist': lambda: node.take_channels([-c - 1]),
        'a crop with a band that does not exist': lambda: node.crop(win, [c + R.randint(0, 3)]),
        'a crop with a negative band that does not exist': lambda: node.crop(win, [-c - 1]),
        'parts of different sizes': lambda: di.DelayedChannelConcat([node, other]),
        'a window of parts of different sizes': lambda: di.DelayedChannelConcat([other, node]).crop(win),
        'a step': lambda: node.crop((slice(0, h, 2), slice(0, w))),
        'a negative step': lambda: node.crop((slice(0, h), slice(w, 0, -1))),
        'padding and wrapping': lambda: node.crop((slice(-1, 2), slice(0, 2)), clip=False),
        'an unknown part of a transform': lambda: node.warp({'scael': 2}),
        'a 2x2 transform': lambda: node.warp(np.eye(2)),
    }
    shift = {'offset': (1.5, 1.25)}
    leafs = [n for _, n in node._traverse() if not n.children()] + [n for _, n in node.optimize()._traverse() if not n.children()]
    if min(h, w, c) > 0 and not np.isnan(want.astype(np.float64)).any() and not any(isinstance(n, di.DelayedNans) for n in leafs):
        # (images without any data need no resampling)
        requests.update({
            'an unknown interpolation': lambda: node.warp(shift, interpolation='bogus'),
            'an unknown interpolation of a reduction': lambda: node.warp({'scale': .4}, interpolation='bogus'),
            'an unknown backend': lambda: node.warp(shift, backend='bogus'),
            'an unknown border': lambda: node.warp(shift, border_value='bogus'),
            'an unknown size': lambda: node.warp(shift, dsize='bogus'),
            'a size with three parts': lambda: node.warp(shift, dsize=(3, 4, 5)),
        })
    before = util.snapshot(node)
    for name in R.sample(sorted(requests), 9):
        opt = R.random() < .5
        ctx.count('impossible')
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                got = requests[name]().finalize(optimize=opt)
            except Exception:
                pass
            else:
                ctx.err(f'optimize={opt}: {name} gave an image of shape {got.shape}, no error was raised')
        d = util.snapdiff(before, util.snapshot(node))
        ctx.expect(not d, f'{name}: the tree changed: {d}')
        ctx.distinct('impossible', name if 'absent0' not in name else 'absent', opt)
    e = util.same(util.plain(node.finalize(optimize=True)), want)
    ctx.expect(e is None, f'after requests that were refused: {e}')


def direct(gdal, path, shape):
    """what GDAL itself can read of the window: (opens, array or None)"""
    gdal.UseExceptions()
    try:
        ds = gdal.Open(path)
    except Exception:
        return False, None
    if (ds.RasterYSize, ds.RasterXSize, ds.RasterCount) != shape:
        return True, None
    arr = np.zeros(shape)
    try:
        for k in range(shape[2]):
            arr[2:15, 3:17, k] = ds.GetRasterBand(k + 1).ReadAsArray(3, 2, 14, 13)
        return True, arr
    except Exception:
        return True, None


def impossible_reads(fpath, arr, R, ctx, label):
    """reads that cannot be fulfilled are refused, the file stays readable"""
    import delayed_image as di
    from delayed_image.lazy_loaders import LazyGDalFrameFile
    h, w, c = arr.shape
    reader = LazyGDalFrameFile(fpath)
    bogus = R.choice(['bogus', 'FLOAT', 'masked', 'nans', 1, True])
    load = di.DelayedLoad(fpath, nodata_method=bogus)
    known = di.DelayedLoad(fpath, nodata_method=bogus, channels=c, dsize=(w, h))
    beyond = reader.num_overviews + R.randint(1, 3)
    win = (slice(1, h - 1), slice(1, w - 1))
    requests = {
        'unknown nodata': lambda: load.finalize(),
        'unknown nodata in a window': lambda: load.prepare().crop(win).finalize(),
        'unknown nodata of some bands': lambda: load.prepare().crop(win, [R.randrange(c)]).finalize(),
        'unknown nodata of a known image': lambda: known.crop(win).finalize(),
        'unknown nodata of a reader': lambda: LazyGDalFrameFile(fpath, nodata_method=bogus)[1:h - 1, 1:w - 1],
        'an overview that does not exist': lambda: reader.get_overview(beyond)[:],
        'an overview that does not exist, opened': lambda: LazyGDalFrameFile(fpath, overview=beyond)[:],
        'a band beyond the last one': lambda: reader[1:h - 1, 1:w - 1, [c]],
        'a band before the first one': lambda: reader[1:h - 1, 1:w - 1, [-c - 1]],
    }
    for name, fn in requests.items():
        ctx.count('impossible_reads')
        try:
            got = fn()
        except Exception:
            pass
        else:
            ctx.err(f'{label}: {name} ({bogus!r}) gave data of shape {np.shape(got)}')
    e = util.same(util.plain(reader[2:15, 3:17]), arr[2:15, 3:17])
    ctx.expect(e is None, f'{label}: after reads that were refused: {e}')


def run_file(case, ctx, gdal):
    import delayed_image as di
    R = random.Random(case['seed'])
    spec, kind = case['spec'], case['kind']
    fpath, levels = files.write(spec, ctx.scratch)
    arr = levels[0]
    data = fpath
    if spec['fmt'] == 'ENVI':
        data = os.path.splitext(fpath)[0] + '.' + spec['interleave'].lower()
    original = open(data, 'rb').read()
    want = arr[2:15, 3:17]
    label = f'{kind} {spec["fmt"]} {spec["dtype"]} exceptions {case["exc"]} fast {case["fast"]}'
    ctx.count('files')
    hidden = data + '.hidden'

    def make(prepare=False):
        node = di.DelayedLoad(fpath, channels='|'.join(f'c{k}' for k in range(spec['c'])))
        if prepare:
            node = node.prepare()
        return node

    def derive(node):
        node = node.prepare()
        if case['concat']:
            other = di.DelayedIdentity(np.zeros(arr.shape[:2] + (1,), dtype=arr.dtype), channels='other')
            node = di.DelayedChannelConcat([node, other])
        return node.crop((slice(2, 15), slice(3, 17)))

    def render(node):
        return util.plain(derive(node).finalize())[:, :, :spec['c']]

    def attempt(node, expected, what):
        (gdal.UseExceptions if case['exc'] else gdal.DontUseExceptions)()
        try:
            got = render(node)
        except Exception:
            ctx.count('refused')
            ctx.expect(expected is None or kind == 'truncate', f'{label}: {what} is readable but rendering raised')
        else:
            if expected is None:
                ctx.err(f'{label}: {what} is unreadable but rendering gave data of shape {got.shape}')
            else:
                e = util.same(got, expected[2:15, 3:17])
                ctx.expect(e is None, f'{label}: {what}: {e}')
        finally:
            gdal.UseExceptions()
    try:
        if kind in {'missing', 'missing_prepared'}:
            node = make(kind == 'missing_prepared' and False)
            os.rename(data, hidden)
            if spec['fmt'] == 'ENVI':
                os.rename(fpath, fpath + '.hidden')
            attempt(node, None, 'a missing file')
            os.rename(hidden, data)
            if spec['fmt'] == 'ENVI':
                os.rename(fpath + '.hidden', fpath)
        elif kind == 'directory':
            node = di.DelayedLoad(ctx.scratch, channels='|'.join(f'c{k}' for k in range(spec['c'])))
            attempt(node, None, 'a directory')
            node = make()
        elif kind in {'truncate', 'empty', 'garbage'}:
            node = make()
            bad = {'truncate': original[:int(len(original) * case['cut'])], 'empty': b'',
                   'garbage': bytes(R.randrange(256) for _ in range(len(original)))}[kind]
            if kind == 'garbage' and spec['fmt'] == 'ENVI':
                # raw pixels: anything is valid
                bad = b''
            with open(data, 'wb') as f:
                f.write(bad)
            opens, can = direct(gdal, data, arr.shape)
            attempt(node, can, f'a {kind} file')
            with open(data, 'wb') as f:
                f.write(original)
            if opens:
                # the handle of the damaged file stays
                node = make()
        elif kind == 'vanish':
            # unlinked after it was opened: the open handle still reads it
            node = make(True)
            attempt(node, arr, 'an opened file')
            os.rename(data, hidden)
            try:
                got = render(node)
            except Exception:
                ctx.count('refused')
            else:
                e = util.same(got, want)
                ctx.expect(e is None, f'{label}: a vanished file gave other data: {e}')
            os.rename(hidden, data)
        else:
            # a second tree after the file was replaced reads the new contents
            node = make(True)
            attempt(node, arr, 'the first file')
            spec2 = dict(spec, seed=spec['seed'] + 1)
            fpath2, levels2 = files.write(spec2, ctx.scratch, tag=9)
            data2 = fpath2 if spec['fmt'] != 'ENVI' else os.path.splitext(fpath2)[0] + '.' + spec['interleave'].lower()
            new = open(data2, 'rb').read()
            files.cleanup(fpath2)
            os.unlink(data)
            with open(data, 'wb') as f:
                f.write(new)
            ovr = data + '.ovr'
            if os.path.exists(ovr):
                os.unlink(ovr)
            if spec['fmt'] != 'PNG':
                attempt(make(), levels2[0], 'the replaced file')
            os.unlink(data)
            with open(data, 'wb') as f:
                f.write(original)
            node = make()
        # the tree that failed works once the file is back
        got = render(node)
        e = util.same(got, want)
        ctx.expect(e is None, f'{label}: after the file was restored: {e}')
        ctx.count('recovered')
        impossible_reads(fpath, arr, R, ctx, label)
        ctx.distinct('file', kind, spec['fmt'], spec['dtype'], case['exc'], case['fast'], case['concat'], round(case['cut'], 1))
    finally:
        files.cleanup(fpath)
