"""Random delayed image programs (JSON documents, see imgref)"""
from __future__ import annotations

import copy
import random

import numpy as np

from vmon import imgref

NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'k.0', 'k.1', 'k.2', 'k.3', 'r', 'x1']


class Uid:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n - 1


def rand_leaf(R, uid, names=None, size=None, kinds=('ident', 'load'), p_unnamed=0.0,
              dtypes=('float32', 'float64', 'int16', 'uint16'), content='ramp', nchan=None):
    w, h = size or (R.randint(40, 120), R.randint(40, 120))
    if R.random() < 0.3 and size is None:
        w, h = 8 * R.randint(6, 14), 8 * R.randint(6, 14)
    c = nchan or R.choice([1, 1, 2, 3, 3, 4, 5, 6])
    kind = R.choice(kinds)
    leaf = {'kind': kind, 'w': w, 'h': h, 'c': c, 'uid': uid(), 'content': content}
    if names is not None and R.random() >= p_unnamed:
        if len(names) >= c:
            leaf['channels'] = '|'.join(names[:c])
            del names[:c]
    if kind in {'ident', 'load'}:
        leaf['dtype'] = R.choice(dtypes)
        if content == 'noise':
            leaf['seed'] = R.randint(0, 10 ** 6)
    if kind == 'ident' and c == 1 and R.random() < 0.3:
        leaf['flat'] = 1
    if kind == 'load':
        leaf['overviews'] = R.choice([0, 0, 1, 2, 3]) if max(w, h) < 256 else R.randint(0, 6)
        leaf['block'] = R.choice([None, 16, 32])
        leaf['interleave'] = R.choice([None, 'PIXEL', 'BAND'])
        if R.random() < 0.2:
            leaf['nodata_method'] = 'float'
    return leaf


def rand_tf(R, hard=True):
    kind = R.choice(['scale', 'scale', 'scale', 'scale2', 'offset', 'scale_off', 'rot', 'full', 'pow2', 'pow2', 'pow2', 'identity', 'ioff', 'flip', 'near', 'near'])
    def sc():
        return round(float(np.exp(R.uniform(np.log(0.2), np.log(3.0)))), R.choice([1, 2, 6])) or 0.3
    if kind == 'scale':
        return {'scale': sc()}
    if kind == 'pow2':
        return {'scale': R.choice([0.5, 0.25, 2.0, 0.125, 0.5])}
    if kind == 'scale2':
        return {'scale': [sc(), sc()]}
    if kind == 'offset':
        return {'offset': [round(R.uniform(-20, 30), 2), round(R.uniform(-20, 30), 2)]}
    if kind == 'ioff':
        return {'offset': [R.randint(-20, 30), R.randint(-20, 30)]}
    if kind == 'scale_off':
        return {'scale': sc(), 'offset': [round(R.uniform(-20, 30), 2), round(R.uniform(-20, 30), 2)]}
    if kind == 'identity':
        return {'scale': 1.0}
    if kind == 'rot':
        return {'theta': round(R.uniform(-3.1, 3.1), 3), 'about': [R.randint(20, 60), R.randint(20, 60)]}
    if kind == 'flip':
        return {'scale': R.choice([[-1, 1], [1, -1], [-1, -1]]), 'about': [R.randint(25, 40), R.randint(25, 40)]}
    if kind == 'near':
        # almost a simpler transform
        t = R.randrange(8)
        if t == 0:
            return {'theta': R.choice([-1, 1]) * R.choice([.01, .04, .09])}
        if t == 1:
            return {'shearx': R.choice([-1, 1]) * R.choice([.02, .08])}
        if t == 2:
            o = [0, R.choice([R.randint(-9, 20), round(R.uniform(-9, 20), 2)])]
            R.shuffle(o)
            return {'offset': o}
        if t == 3:
            s = [1, R.choice([.5, 2, sc()])]
            R.shuffle(s)
            return {'scale': s}
        if t == 4:
            return {'scale': R.choice([.49, .51, .25 + 1 / 128, .97, 1.03, 1.98])}
        if t == 5:
            return {'scale': sc(), 'theta': R.choice([-.05, .05])}
        if t == 6:
            return {'offset': [round(R.uniform(-.6, .6), 3), round(R.uniform(-.6, .6), 3)]}
        return {'scale': R.choice([.5, .5, .25, 2]), 'offset': [R.choice([0, R.randint(-20, 30)]), R.choice([0, R.randint(-20, 30)])]}
    return {'scale': [sc(), sc()], 'theta': round(R.uniform(-1, 1), 3), 'shearx': round(R.uniform(-.4, .4), 3),
            'offset': [round(R.uniform(-20, 40), 2), round(R.uniform(-20, 40), 2)]}


def rand_warp_kw(R, op, p=0.25, nchan=1):
    if R.random() < p:
        op['interpolation'] = R.choice(['linear', 'nearest', 'cubic', 'lanczos', 'linear', 'nearest'])
        if nchan > 4 and op['interpolation'] in {'cubic', 'lanczos'}:
            # unsupported by OpenCV
            op.pop('interpolation')
        elif R.random() < .2:
            op['code'] = 1
    if R.random() < p:
        op['antialias'] = bool(R.randint(0, 1))
    if R.random() < p:
        op['border_value'] = R.choice(['auto', 0, 0, 7, 'nan'])
        if 1 < nchan <= 4 and R.random() < .4:
            op['border_value'] = [R.randint(1, 90) for _ in range(nchan)]
    if R.random() < p * 0.3:
        op['noop_eps'] = R.choice([0, 1e-9])
    if R.random() < p * 0.5:
        op['backend'] = 'cv2'
    return op


def rand_op(R, m, cfg):
    """propose a random op applicable to something with model m"""
    w, h = m.dsize
    C = len(m.chans)
    name = R.choices(
        ['crop', 'crop_chan', 'warp', 'scale', 'resize', 'padcrop', 'dequant', 'overview', 'take', 'opt'],
        cfg.get('weights', [4, 1.5, 4, 2, 1.5, 1, 0.8, 1, 1, 0.4]))[0]
    isfloat = all(c.kind == 'f' for c in m.chans)
    if name in {'crop', 'crop_chan'}:
        def span(D):
            t = R.random()
            if t < 0.15:
                return [None, None]
            a = R.randint(0, max(0, D // 2))
            b = R.randint(min(D, a + max(1, D // 4)), D)
            if t < 0.25:
                return [None, b]
            if t < 0.35:
                return [a, None]
            if t < 0.45:
                return [a, b - D] if b < D else [a, None]
            if t < 0.5:
                return [a - D if a else None, b]
            if t < 0.55:
                return [a, b + R.randint(0, 30)] if b == D else [a, D + 5]
            return [a, b]
        op = {'op': 'crop', 'y': span(h), 'x': span(w)}
        if name == 'crop_chan' and C > 0:
            if R.random() < .3:
                op['y'] = op['x'] = 'none'
            idx = [R.randrange(C) for _ in range(R.randint(1, C))]
            if cfg.get('chan_dups', False) is False:
                idx = R.sample(range(C), R.randint(1, C))
            op['chan'] = idx
        elif R.random() < 0.4:
            op['via'] = 'getitem'
        elif R.random() < 0.2:
            op['lazy'] = True
        return op
    if name == 'warp':
        op = {'op': 'warp', 'tf': rand_tf(R)}
        t = R.random()
        if t < 0.35:
            op['dsize'] = [R.randint(max(4, w // 3), max(5, 2 * w)), R.randint(max(4, h // 3), max(5, 2 * h))]
            if set(op['tf']) == {'scale'} and R.random() < .5:
                # about the size of the scaled image
                sx, sy = op['tf']['scale'] if isinstance(op['tf']['scale'], list) else [op['tf']['scale']] * 2
                op['dsize'] = [max(1, int(np.ceil(s * d)) + R.choice([-9, -4, -2, -1, -1, 0, 0, 1, 3])) for s, d in [(sx, w), (sy, h)]]
        elif t < 0.45:
            op['dsize'] = [w, h]
        rand_warp_kw(R, op, cfg.get('p_kw', 0.25), C)
        if not isfloat and op.get('border_value') == 'nan':
            op.pop('border_value')
        if set(op) <= {'op', 'tf', 'dsize'} and R.random() < .2:
            op['lazy'] = True
            if R.random() < .5:
                # almost nothing to do
                op['tf'] = R.choice([{'scale': 1}, {'scale': R.choice([.98, 1.01, 1.02])}, {'offset': [R.choice([0, .01, .3, 1]), R.choice([0, .2])]},
                                     {'theta': .01}])
                op['dsize'] = R.choice([[w, h], [w, h], [w, h + R.choice([-2, -1, 3])], [w + R.choice([-2, -1, 3]), h], [w + 2, h + 1], [h, w]])
        return op
    if name == 'scale':
        s = R.choice([0.5, 0.25, 2, round(R.uniform(.3, 2.5), 2), [round(R.uniform(.3, 2.5), 2), round(R.uniform(.3, 2.5), 2)]])
        op = {'op': 'scale', 's': s}
        rand_warp_kw(R, op, cfg.get('p_kw', 0.25), C)
        if not isfloat and op.get('border_value') == 'nan':
            op.pop('border_value')
        return op
    if name == 'resize':
        op = {'op': 'resize', 'dsize': [R.randint(max(4, w // 3), max(5, 2 * w)), R.randint(max(4, h // 3), max(5, 2 * h))]}
        if R.random() < .2:
            op['dsize'] = [max(1, -(-w // 2)), max(1, -(-h // 2))]
        rand_warp_kw(R, op, cfg.get('p_kw', 0.25), C)
        if not isfloat and op.get('border_value') == 'nan':
            op.pop('border_value')
        return op
    if name == 'padcrop':
        op = {'op': 'padcrop',
              'y': [R.randint(-20, h // 2), R.randint(h // 2 + 4, h + 20)],
              'x': [R.randint(-20, w // 2), R.randint(w // 2 + 4, w + 20)]}
        if R.random() < 0.4:
            op['pad'] = R.choice([R.randint(0, 9), [R.randint(0, 9), R.randint(0, 9)],
                                  [[R.randint(0, 9), R.randint(0, 9)], [R.randint(0, 9), R.randint(0, 9)]]])
        return op
    if name == 'dequant':
        return {'op': 'dequant', 'q': {
            'orig_dtype': R.choice(['float32', 'float64']),
            'orig_min': R.choice([0, -1, 5]), 'orig_max': R.choice([100, 1000, 10000]),
            'quant_min': R.choice([0, -10, 100]), 'quant_max': R.choice([10000, 32000]),
            'nodata': R.choice([None, -9999])}}
    if name == 'overview':
        return {'op': 'overview', 'k': R.choice([1, 1, 2, 3, 0])}
    if name == 'take':
        if m.names is not None and R.random() < 0.7:
            have = list(dict.fromkeys(m.names))
            pick = R.sample(have, R.randint(1, len(have)))
            if R.random() < cfg.get('p_missing', 0.2):
                pick.insert(R.randint(0, len(pick)), R.choice(['zz', 'yy', 'q.1']))
            return {'op': 'take', 'spec': '|'.join(pick)}
        return {'op': 'take', 'spec': R.sample(range(C), R.randint(1, C))}
    return {'op': 'opt'}


def op_ok(prog, op, m, m2, cfg):
    w, h = m2.dsize
    lo = cfg.get('min_size', 6)
    hi = cfg.get('max_size', 260)
    if not (lo <= w <= hi and lo <= h <= hi):
        return False
    if len(m2.chans) == 0 or len(m2.chans) > cfg.get('max_chans', 12):
        return False
    for c in m2.chans:
        s = imgref.affine_scale(c.M)
        if s.min() < 0.03 or s.max() > 20 or s.max() / s.min() > 8:
            return False
    return True


def grow(R, prog, m, nops, cfg):
    """append nops random ops to prog"""
    ops = prog.setdefault('ops', [])
    has_dq = cfg.setdefault('_dq', {})
    tries = 0
    n = 0
    while n < nops and tries < 60:
        tries += 1
        op = rand_op(R, m, cfg)
        if op['op'] == 'dequant' and prog_has(prog, 'dequant'):
            continue
        if op['op'] == 'overview' and prog_has(prog, 'concat_noov'):
            continue
        m2 = imgref.model_op(m, op)
        if not op_ok(prog, op, m, m2, cfg):
            continue
        if op['op'] == 'overview' and not cfg.get('ov_beyond', True):
            if (m.overviews or 0) < op['k']:
                continue
        ops.append(op)
        m = m2
        n += 1
    return m


def prog_has(prog, name):
    if any(o['op'] == name for o in prog.get('ops', ())):
        return True
    return any(prog_has(p, name) for p in prog.get('concat', ()))


def share(R, parts, dsize, uid, cfg):
    """add a part that starts at a node inside of another part"""
    j = R.randrange(len(parts))
    p = parts[j]
    if has_spec(p):
        return
    for leaf in imgref.prog_leafs(p):
        # the names would be ambiguous
        leaf.pop('channels', None)
    k = R.randint(0, len(p['ops']))
    if 'share' not in p:
        p['share'] = [f's{uid()}', k]
    k = p['share'][1]
    q = copy.deepcopy(p)
    q['ops'] = q['ops'][:k]
    m = imgref.model(q)
    if R.random() < .5 and not prog_has(q, 'dequant') and any(c.kind != 'f' for c in m.chans):
        # one use in other units
        q['ops'].append(rand_op(R, m, dict(weights=[0] * 6 + [1] + [0] * 3)))
        m = imgref.model_op(m, q['ops'][-1])
    m = grow(R, q, m, R.randint(0, 2), dict(cfg, p_missing=0))
    if m.dsize != dsize:
        op = {'op': 'resize', 'dsize': list(dsize)}
        t = R.random()
        if t < .3:
            op = {'op': 'warp', 'tf': {'scale': R.choice([2, .5, 1.25])}, 'dsize': list(dsize)}
        elif t < .5 and m.dsize[0] >= dsize[0] and m.dsize[1] >= dsize[1]:
            op = {'op': 'crop', 'y': [0, dsize[1]], 'x': [0, dsize[0]]}
        q['ops'].append(op)
    if len(imgref.model(q).chans) + sum(len(imgref.model(x).chans) for x in parts) <= cfg.get('max_chans', 12):
        parts.insert(R.randint(0, len(parts)), q)


def has_spec(p):
    return any(isinstance(o.get('spec'), str) for o in p.get('ops', ())) or any(has_spec(x) for x in p.get('concat', ()))


def rand_prog(R, cfg=None, depth=None, uid=None, names=None, size=None):
    cfg = dict(cfg or {})
    if uid is None:
        uid = Uid()
        if 'dtypes' not in cfg:
            # mixing integer types concatenates into int32, which OpenCV
            # cannot filter
            cfg['dtypes'] = ('float32', 'float64', R.choice(['int16', 'uint16']))
    if names is None:
        names = list(NAMES) + [f'm.{k}' for k in range(cfg.get('max_chans', 12) if 'nchan' in cfg else 0)]
        R.shuffle(names)
    if depth is None:
        depth = R.choice([1, 1, 1, 2] if cfg.get('p_share') else [0, 0, 0, 1, 1, 2])
    if depth == 0:
        lr = cfg.get('leaf_range')
        prog = {'leaf': rand_leaf(R, uid, names, size=lr and (R.randint(*lr), R.randint(*lr)), kinds=cfg.get('kinds', ('ident', 'load')),
                                  p_unnamed=cfg.get('p_unnamed', 0.1),
                                  content=cfg.get('content', 'ramp'), nchan=cfg.get('nchan') and R.randint(*cfg['nchan']),
                                  dtypes=cfg.get('dtypes', ('float32', 'float64', 'int16', 'uint16'))),
                'ops': []}
        m = imgref.model(prog)
        m = grow(R, prog, m, R.randint(*cfg.get('nops', (1, 6))), cfg)
        return prog
    nparts = R.choice([1, 2, 2, 3])
    parts = []
    dsize = None
    for _ in range(nparts):
        p = rand_prog(R, cfg, depth - 1, uid, names)
        m = imgref.model(p)
        if dsize is None:
            dsize = m.dsize
        elif m.dsize != dsize:
            # align into the common space
            op = {'op': 'resize', 'dsize': list(dsize)}
            m2 = imgref.model_op(m, op)
            p['ops'].append(op)
        parts.append(p)
    if cfg.get('p_share', 0) > R.random():
        share(R, parts, dsize, uid, cfg)
    if cfg.get('p_nanpart', 0.15) > R.random():
        n = R.randint(1, 2)
        leaf = {'kind': R.choice(['nans', 'nodata']), 'w': dsize[0], 'h': dsize[1], 'c': n, 'uid': uid()}
        if len(names) >= n and R.random() < .8:
            leaf['channels'] = '|'.join(names[:n])
            del names[:n]
        parts.insert(R.randint(0, len(parts)), {'leaf': leaf, 'ops': []})
    prog = {'concat': parts, 'ops': []}
    m = imgref.model(prog)
    grow(R, prog, m, R.randint(*cfg.get('nops_outer', (0, 5))), cfg)
    return prog
