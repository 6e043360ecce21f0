"""
The tracing and debugging switches of the library only observe.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import subprocess
import sys

import numpy as np

from vmon import imggen, imgref, util
from vmon.checks import p01

ID = 'P24'
TITLE = 'Tracing and debugging switches observe without changing any result'
RULE = ('the same random trees are optimized, rendered, derived from and described with all, some and none of the switches on (optimizer trace, array events, '
        'warp messages): results are bitwise equal, optimized trees equal, the same calls fail; every event line is well formed; a few '
        'cases set the environment variables of a fresh interpreter; distinct = distinct (program, switches)')
QUICK, THOROUGH = 600, 12000
REQUIRE = {'renders': 3000, 'events': 1500, 'traced': 200, 'messages': 300, 'failures': 100, 'fresh': 4}
ASSUMPTIONS = ['the trace itself (the lists of log texts) and what is printed may differ']

PREFIX = '[delayed_image.debug] '
SWITCHES = ['TRACE_OPTIMIZE', 'DEBUG_ARRAY_EVENTS']
CFGS = p01.CFGS + [
    {'p_kw': .5, 'kinds': ['load'], 'content': 'noise', 'dtypes': ('int16', 'uint16'), 'weights': [3, 1, 4, 2, 2, 1, 4, 3, 1, 1]},
    {'p_kw': .6, 'content': 'noise', 'dtypes': ('int16', 'float32', 'uint8'), 'nops': [1, 5]},
]


def gen(R, i, tier):
    if i < 4:
        return {'fresh': [imggen.rand_prog(R, CFGS[(i * 3 + k) % len(CFGS)]) for k in range(12)], 'seed': i}
    cfg = CFGS[i % len(CFGS)]
    tail = []
    if R.random() < .3:
        tail = [{'op': 'warp', 'tf': R.choice([{'scale': R.choice([.5, 1.5, 2])}, {'offset': [R.randint(-4, 4), 2]}, {'scale': [.3, 1.2], 'offset': [1.5, 0]}]),
                 'interpolation': 'nearest', 'border_value': R.choice([0, 5])}]
    on = R.choice([SWITCHES + ['WARP'], SWITCHES + ['WARP'], ['TRACE_OPTIMIZE'], ['DEBUG_ARRAY_EVENTS'], ['WARP'], ['TRACE_OPTIMIZE', 'WARP']])
    case = {'prog': imggen.rand_prog(R, cfg), 'tail': tail, 'on': on, 'fast': R.randint(0, 1), 'seed': R.randint(0, 10 ** 6)}
    if i % 6 == 5:
        for leaf in walk_leafs(case['prog']):
            if leaf['kind'] == 'load' and leaf['dtype'] != 'uint8':
                leaf['nodata_method'] = 'ma'
                leaf['nodata'] = leaf.get('nodata') or 3
    if i % 9 == 4:
        case['break'] = R.choice(['missing', 'quant', 'chan', 'border'])
    return case


@contextlib.contextmanager
def switched(on, scratch, log, fast=0):
    """all names of the switches in the library are set, output is caught"""
    old = []
    for name, mod in sorted(sys.modules.items()):
        if mod is not None and name.split('.')[0] == 'delayed_image':
            for k in SWITCHES:
                if k in vars(mod):
                    old.append((mod, k, vars(mod)[k]))
                    setattr(mod, k, int(k in on))
            if 'GDAL_FAST_PATH' in vars(mod):
                old.append((mod, 'GDAL_FAST_PATH', mod.GDAL_FAST_PATH))
                mod.GDAL_FAST_PATH = fast
    fpath = os.path.join(scratch, 'events.txt')
    keep = os.dup(2)
    out = io.StringIO()
    with open(fpath, 'wb') as f:
        os.dup2(f.fileno(), 2)
    if 'WARP' in on:
        os.environ['DELAYED_IMAGE_WARP_DEBUG'] = '1'
    try:
        with contextlib.redirect_stdout(out):
            yield
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.environ.pop('DELAYED_IMAGE_WARP_DEBUG', None)
        for mod, k, v in old:
            setattr(mod, k, v)
        with open(fpath, errors='replace') as f:
            log.append((f.read(), out.getvalue()))
        os.unlink(fpath)


def brk(case, node):
    import delayed_image as di
    b = case['break']
    if b == 'missing':
        return di.DelayedChannelConcat([node, di.DelayedLoad('/nonexistent/dir/x.tif', channels='gone', dsize=node.dsize, num_overviews=0)])
    if b == 'quant':
        return node.dequantize({'quant_min': 3})
    if b == 'chan':
        return node.crop(None, [0, 99])
    return node.warp({'scale': 1.5, 'theta': .1}, border_value=(1, 2, 3, 4, 5, 6))


def full_hash(a):
    if not isinstance(a, np.ndarray):
        a = np.asarray(a)
    return (util.data_hash(a), str(a.dtype), a.shape, str(getattr(a, 'fill_value', None)))


def perform(node, case):
    """everything that is observable, in a fixed order"""
    R = random.Random(case['seed'])
    out = []

    def do(name, f):
        try:
            out.append((name, f()))
        except Exception as ex:
            out.append((name, 'raises ' + type(ex).__name__))
    if 'break' in case:
        try:
            node = brk(case, node)
        except Exception as ex:
            return [('build', 'raises ' + type(ex).__name__)]
    do('optimize', lambda: util.structure(node.optimize()))
    do('render', lambda: full_hash(node.finalize()))
    do('raw', lambda: full_hash(node.finalize(optimize=False)))
    do('shape', lambda: (tuple(map(int, node.shape)), tuple(map(int, node.dsize))))
    do('channels', lambda: node.channels and node.channels.spec)
    w, h = map(int, node.dsize)
    y, x = R.randint(0, h), R.randint(0, w)
    k = R.randrange(4)
    if k == 0:
        do('crop', lambda: full_hash(node.crop((slice(y, y + 9), slice(x, x + 9))).finalize()))
    elif k == 1:
        do('scale', lambda: full_hash(node.warp({'scale': .5}).finalize()))
    elif k == 2 and hasattr(node, 'undo_warp'):
        do('undo', lambda: util.structure(node.undo_warp(remove=['scale', 'offset'])))
    else:
        do('take', lambda: full_hash(node.take_channels([0]).finalize()))
    do('graph', lambda: [str(d.get('label', d.get('type'))) for _, d in node.as_graph().nodes(data=True)])
    do('nesting', lambda: hashlib.md5(repr(util.canon(node.nesting())).encode()).hexdigest())
    do('again', lambda: full_hash(node.finalize()))
    return out


def build(case, ctx):
    node = imgref.build(case['prog'], imgref.Env(ctx.scratch))
    for op in case.get('tail', ()):
        node = imgref.apply_op(node, op)
    return node


def compare(ctx, want, got, label):
    for (name, a), (_, b) in zip(want, got):
        ctx.count('renders', name in ('render', 'raw', 'crop', 'scale', 'take', 'again'))
        ctx.count('failures', isinstance(b, str) and b.startswith('raises'))
        ctx.expect(a == b or repr(a) == repr(b), f'{name} differs with {label}: {str(a)[:200]} without, {str(b)[:200]} with')
    ctx.expect(len(want) == len(got), f'{len(got)} results with {label}, {len(want)} without')


def events(ctx, log):
    for err, out in log:
        for line in err.splitlines():
            if PREFIX in line:
                try:
                    e = json.loads(line.split(PREFIX, 1)[1])
                    ok = e['pid'] == os.getpid() and isinstance(e['label'], str)
                except Exception:
                    ok = False
                ctx.count('events')
                ctx.expect(ok, f'malformed event {line[:300]!r}')
        ctx.count('messages', out.count('DelayedWarp'))


def run(case, ctx):
    if 'fresh' in case:
        return run_fresh(case, ctx)
    log = []
    quiet = []
    shared = build(case, ctx)
    with switched([], ctx.scratch, quiet, case['fast']):
        want = perform(shared, case)
    ctx.expect(not any(PREFIX in e for e, _ in quiet), 'events are written although the switch is off')
    before = util.snapshot(shared)
    with switched(case['on'], ctx.scratch, log, case['fast']):
        got = perform(shared, case)
        fresh = perform(build(case, ctx), case)
    events(ctx, log)
    label = '+'.join(case['on'])
    compare(ctx, want, got, label)
    compare(ctx, want, fresh, label + ' from the start')
    ctx.expect(util.snapdiff(before, util.snapshot(shared)) is None, f'{label}: the tree changed')
    ctx.count('traced', 'TRACE_OPTIMIZE' in case['on'] and any(n._opt_logs for n in util.walk(shared.optimize()) if hasattr(n, '_opt_logs')))
    with switched([], ctx.scratch, quiet, case['fast']):
        compare(ctx, want, perform(shared, case), f'{label} switched off again')
    ctx.distinct(util.opnames(case['prog']), case['on'], case.get('break'))


CHILD = '''
import os, sys, json, warnings
warnings.simplefilter('ignore')
root, repo, scratch, fpath = sys.argv[1:5]
sys.path[0:0] = [repo, root]
from vmon import imgref
from vmon.checks import p24
case = json.load(open(fpath))
os.getpid = lambda: 4242  # it is part of the names of files
res = []
for prog in case['fresh']:
    node = imgref.build(prog, imgref.Env(scratch))
    res.append(p24.perform(node, {'seed': case['seed']}))
print('RESULT ' + json.dumps(res, default=str))
'''


def run_fresh(case, ctx):
    """the switches as users set them: in the environment"""
    import delayed_image
    repo = os.path.dirname(os.path.dirname(os.path.abspath(delayed_image.__file__)))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    fpath = os.path.join(ctx.scratch, 'case.json')
    with open(fpath, 'w') as f:
        json.dump(case, f)
    texts = {}
    for on in (False, True):
        env = dict(os.environ, PYTHONHASHSEED='0')
        for k in ('DELAYED_IMAGE_DEBUG_SEGFAULT', 'DELAYED_IMAGE_WARP_DEBUG'):
            env.pop(k, None)
            if on:
                env[k] = '1'
        d = os.path.join(ctx.scratch, 'child')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        p = subprocess.run([sys.executable, '-c', CHILD, root, repo, d, fpath], env=env, capture_output=True, text=True, timeout=300)
        lines = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
        ctx.expect(p.returncode == 0 and len(lines) == 1, f'interpreter with switches {on}: exit {p.returncode}, {p.stderr[-300:]!r}')
        texts[on] = (lines, p.stderr)
        ctx.count('fresh')
    a, b = (json.loads(texts[k][0][0][7:]) if texts[k][0] else [] for k in (False, True))
    for k, (x, y) in enumerate(zip(a, b)):
        compare(ctx, x, y, f'the environment variables (program {k})')
    bad = []
    for line in texts[True][1].splitlines():
        if PREFIX in line:
            ctx.count('env_events')
            try:
                json.loads(line.split(PREFIX, 1)[1])
            except Exception:
                bad.append(line)
    ctx.expect(not bad, f'malformed event {bad[:1]}')
    ctx.expect(PREFIX not in texts[False][1], 'events without the environment variable')
    ctx.distinct('fresh', case['seed'])


def walk_leafs(prog):
    if isinstance(prog, dict):
        if 'kind' in prog and 'uid' in prog:
            yield prog
        else:
            for v in prog.values():
                yield from walk_leafs(v)
    elif isinstance(prog, list):
        for v in prog:
            yield from walk_leafs(v)
