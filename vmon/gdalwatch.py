"""Records the pixel reads that go through GDAL"""
import contextlib
import functools
import os
import threading

METHODS = ['ReadAsArray', 'ReadRaster', 'ReadRaster1', 'ReadBlock', 'GetVirtualMemArray', 'ReadAsMaskedArray',
           'AdviseRead', 'Checksum', 'ComputeStatistics', 'GetVirtualMem', 'BeginAsyncReader']


class Read:
    __slots__ = ('path', 'bands', 'full', 'level', 'win', 'what')

    def __init__(self, path, bands, full, level, win, what):
        self.path, self.bands, self.full, self.level, self.win, self.what = path, bands, full, level, win, what

    def __repr__(self):
        return f'{self.what}({os.path.basename(self.path)} bands {self.bands} level {self.level} of {self.full} window {self.win})'


def _arg(args, kw, i, names, default):
    for n in names:
        if n in kw and kw[n] is not None:
            return kw[n]
    if len(args) > i and args[i] is not None:
        return args[i]
    return default


@contextlib.contextmanager
def watch():
    """yields the list of reads, in full resolution coordinates"""
    from osgeo import gdal
    log = []
    local = threading.local()
    undo = []

    def wrap(cls, name):
        orig = getattr(cls, name)

        @functools.wraps(orig)
        def inner(self, *args, **kw):
            if not getattr(local, 'depth', 0):
                log.append(describe(self, cls, name, args, kw))
            local.depth = getattr(local, 'depth', 0) + 1
            try:
                return orig(self, *args, **kw)
            finally:
                local.depth -= 1
        undo.append((cls, name, cls.__dict__[name]))
        setattr(cls, name, inner)

    def describe(obj, cls, name, args, kw):
        ds = obj.GetDataset() if cls is gdal.Band else obj
        path = ds.GetDescription() if ds is not None else ''
        band0 = obj if cls is gdal.Band else obj.GetRasterBand(1)
        if cls is gdal.Band:
            bands = [obj.GetBand()]
        else:
            bands = _arg(args, kw, 99, ['band_list'], None) or list(range(1, obj.RasterCount + 1))
        w, h = band0.XSize, band0.YSize
        if name in {'ReadAsArray', 'ReadRaster', 'ReadRaster1', 'ReadAsMaskedArray', 'AdviseRead'}:
            x = _arg(args, kw, 0, ['xoff'], 0)
            y = _arg(args, kw, 1, ['yoff'], 0)
            dw = _arg(args, kw, 2, ['win_xsize', 'xsize'], w - x)
            dh = _arg(args, kw, 3, ['win_ysize', 'ysize'], h - y)
        else:
            x, y, dw, dh = 0, 0, w, h
        return Read(path, list(bands), None, (w, h), (x, y, x + dw, y + dh), cls.__name__ + '.' + name)

    for cls in (gdal.Band, gdal.Dataset):
        for name in METHODS:
            if name in cls.__dict__:
                wrap(cls, name)
    try:
        yield log
    finally:
        for cls, name, orig in undo:
            setattr(cls, name, orig)
