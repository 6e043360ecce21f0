"""
Raster files whose content is known, level by level.

``write(spec, dir)`` returns (path, [array of level 0, level 1, ...]); the
arrays are what the file was given (lossless formats), not what a reader said.
"""
import os

import numpy as np

GDT = {'uint8': 1, 'uint16': 2, 'int16': 3, 'uint32': 4, 'int32': 5, 'float32': 6, 'float64': 7,
       'uint64': 12, 'int64': 13, 'int8': 14}
FORMATS = ['GTiff', 'GTiff', 'GTiff', 'ENVI', 'ENVI', 'PNG', 'HFA', 'VRT', 'COG']


def rand_spec(R, nodata=False, fmt=None):
    fmt = fmt or R.choice(FORMATS)
    dts = ['uint8', 'uint8', 'uint16', 'int16', 'uint32', 'int32', 'float32', 'float64']
    if fmt == 'GTiff' and not nodata:
        dts += ['int8', 'int64', 'uint64']
    if fmt == 'PNG':
        dts = ['uint8', 'uint16']
    spec = {'fmt': fmt, 'dtype': R.choice(dts), 'seed': R.randint(0, 10 ** 9),
            'h': R.randint(1, 60), 'w': R.randint(1, 60), 'c': R.choice([1, 1, 2, 3, 3, 4, 5]), 'overviews': 0, 'nodata': None}
    if R.random() < .1:
        spec['h'], spec['w'] = R.randint(250, 300), R.randint(250, 300)
    if fmt == 'PNG':
        spec['c'] = R.choice([1, 3, 4])
    if fmt in {'GTiff', 'VRT'}:
        spec['interleave'] = R.choice(['PIXEL', 'BAND'])
        spec['block'] = R.choice([None, 16, 32])
        spec['compress'] = R.choice([None, None, 'DEFLATE', 'LZW'])
        spec['external'] = R.random() < .4
        if R.random() < .75 and min(spec['h'], spec['w']) > 8:
            spec['overviews'] = R.randint(1, 3)
    if fmt == 'ENVI':
        spec['interleave'] = R.choice(['BSQ', 'BIL', 'BIP'])
    if fmt == 'COG':
        spec['overviews'] = R.randint(0, 1)
        spec['h'] = spec['w'] = R.choice([520, 600])
        spec['c'] = R.choice([1, 3])
        spec['dtype'] = R.choice(['uint8', 'int16', 'float32'])
    if spec['c'] == 1 and spec['dtype'] == 'uint8' and fmt in {'GTiff', 'VRT', 'PNG', 'HFA', 'COG'} and R.random() < .6:
        # indices of colors
        spec['palette'] = R.randint(1, 10 ** 6)
    if nodata:
        vals = [0, 7, 255] if spec['dtype'].startswith('u') else [0, -9999 if spec['dtype'] != 'int8' else -9, 3]
        if spec['dtype'].startswith('f'):
            vals += [0.5, float('nan'), -3.4028234663852886e38]
        else:
            info = np.iinfo(spec['dtype'])
            vals += [info.min, info.max] if info.bits < 64 else []
            if R.random() < .2:
                # not a value of the band
                vals = [{'uint8': -9999, 'int8': 200, 'uint16': -1, 'int16': 40000, 'uint32': -1, 'int32': 2 ** 31}.get(spec['dtype'], 0), 3.5, info.max + 1]
        v = R.choice(vals)
        if fmt in {'VRT', 'HFA'}:
            spec['nodata'] = [R.choice([None] + vals) for _ in range(spec['c'])]
        elif fmt == 'PNG':
            spec['nodata'] = None
        else:
            spec['nodata'] = [v] * spec['c']
    return spec


def contents(spec):
    """random content of every level with many nodata like values"""
    R = np.random.default_rng(spec['seed'])
    dt = np.dtype(spec['dtype'])
    out = []
    for lev in range(spec['overviews'] + 1):
        h, w = -(-spec['h'] // 2 ** lev), -(-spec['w'] // 2 ** lev)
        shape = (h, w, spec['c'])
        if dt.kind == 'f':
            arr = R.normal(size=shape).astype(dt) * 100
        else:
            info = np.iinfo(dt)
            lo, hi = max(info.min, -2 ** 40), min(info.max, 2 ** 40)
            arr = R.integers(lo, hi, size=shape, endpoint=True).astype(dt)
        vals = [v for v in (spec['nodata'] or []) if v is not None]
        m = R.random(shape) < .15
        for v in set(vals):
            if dt.kind == 'f' or info.min <= v <= info.max:
                arr[m & (R.random(shape) < .6)] = v
            # the closest other values
            near = m & (R.random(shape) < .2)
            if dt.kind == 'f':
                if v == v:
                    arr[near] = np.nextafter(dt.type(v), dt.type(0))
            else:
                for d in (-1, 1):
                    if info.min <= v + d <= info.max:
                        arr[near & (R.random(shape) < .5)] = v + d
            if dt.kind != 'f' and not info.min <= v <= info.max:
                # what it might be mistaken for
                arr[near] = np.array([int(v)]).astype(dt)[0]
                arr[near & (R.random(shape) < .5)] = info.max if v > 0 else info.min
        out.append(arr)
    return out


def write(spec, dpath, tag=0):
    from osgeo import gdal
    gdal.UseExceptions()
    levels = contents(spec)
    base = os.path.join(dpath, f'f{tag}_{spec["seed"]}_{os.getpid()}')
    fmt = spec['fmt']
    h, w, c = levels[0].shape
    dt = GDT[spec['dtype']]
    opts = []
    if fmt in {'PNG', 'COG'}:
        ds = gdal.GetDriverByName('MEM').Create('', w, h, c, dt)
        fpath = base + ('.png' if fmt == 'PNG' else '.tif')
    elif fmt == 'ENVI':
        fpath = base + '.' + spec['interleave'].lower()
        ds = gdal.GetDriverByName('ENVI').Create(fpath, w, h, c, dt, ['INTERLEAVE=' + spec['interleave']])
    elif fmt == 'HFA':
        fpath = base + '.img'
        ds = gdal.GetDriverByName('HFA').Create(fpath, w, h, c, dt)
    else:
        fpath = base + '.tif'
        opts = ['INTERLEAVE=' + spec['interleave']]
        if spec['block']:
            opts += ['TILED=YES', f'BLOCKXSIZE={spec["block"]}', f'BLOCKYSIZE={spec["block"]}']
        if spec['compress']:
            opts += ['COMPRESS=' + spec['compress']]
        ds = gdal.GetDriverByName('GTiff').Create(fpath, w, h, c, dt, opts)
    if spec.get('palette') and c == 1 and spec['dtype'] == 'uint8':
        table = gdal.ColorTable()
        C = np.random.default_rng(spec['palette']).integers(0, 256, (256, 4))
        for k in range(256):
            table.SetColorEntry(k, tuple(map(int, C[k])))
        ds.GetRasterBand(1).SetColorTable(table)
    for k in range(c):
        b = ds.GetRasterBand(k + 1)
        b.WriteArray(levels[0][:, :, k])
        v = (spec['nodata'] or [None] * c)[k]
        if v is not None and fmt != 'VRT':
            b.SetNoDataValue(v)
    if fmt in {'PNG', 'COG'}:
        opts = []
        if fmt == 'COG':
            opts = ['BLOCKSIZE=256', 'RESAMPLING=NEAREST'] + ([] if spec['overviews'] else ['OVERVIEWS=NONE'])
        out = gdal.GetDriverByName(fmt).CreateCopy(fpath, ds, options=opts)
        out = None
        ds = None
        if fmt == 'COG':
            # the driver made the levels
            ds = gdal.Open(fpath)
            n = ds.GetRasterBand(1).GetOverviewCount()
            levels = levels[:1] + [np.stack([ds.GetRasterBand(k + 1).GetOverview(i).ReadAsArray() for k in range(c)], axis=2) for i in range(n)]
        return fpath, levels
    n = spec['overviews']
    if n:
        if spec['external']:
            ds = None
            ds = gdal.Open(fpath, gdal.GA_ReadOnly)
        ds.BuildOverviews('NEAREST', [2 ** (i + 1) for i in range(n)])
        ds = None
        ds = gdal.Open(fpath + '.ovr' if spec['external'] else fpath, gdal.GA_Update)
        for i in range(n):
            for k in range(c):
                b = ds.GetRasterBand(k + 1)
                if spec['external']:
                    b = b if i == 0 else b.GetOverview(i - 1)
                else:
                    b = b.GetOverview(i)
                b.WriteArray(levels[i + 1][:, :, k])
        b = None
    ds.FlushCache()
    ds = None
    if fmt == 'ENVI':
        fpath = base + '.hdr'
        assert os.path.exists(fpath)
    if fmt == 'VRT':
        src = fpath
        fpath = base + '.vrt'
        ds = gdal.GetDriverByName('VRT').CreateCopy(fpath, gdal.Open(src))
        for k in range(c):
            v = (spec['nodata'] or [None] * c)[k]
            if v is not None:
                ds.GetRasterBand(k + 1).SetNoDataValue(v)
        ds.FlushCache()
        ds = None
        ds = gdal.Open(fpath)
        levels = levels[:1 + ds.GetRasterBand(1).GetOverviewCount()]
        ds = None
    return fpath, levels


def cleanup(fpath):
    stem = os.path.splitext(fpath)[0]
    d = os.path.dirname(stem)
    for name in os.listdir(d):
        if name.startswith(os.path.basename(stem) + '.'):
            os.unlink(os.path.join(d, name))
