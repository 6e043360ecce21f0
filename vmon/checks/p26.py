"""
A tree means the same in every process.
"""
import json
import os
import pickle
import shutil
import subprocess
import sys

from vmon import imggen, imgref, util
from vmon.checks import p01, p24

ID = 'P26'
TITLE = 'A tree gives the same results in every process, whatever ran before'
RULE = ('batches of random programs run in fresh interpreters that differ in hash seed, order of the programs, assertions (-O), folder, import order and garbage '
        'collection, and as pickled trees sent from another process: every result is equal bit by bit; distinct = distinct (batch, set of interpreters)')
QUICK, THOROUGH = 12, 300
REQUIRE = {'children': 40, 'results': 6000, 'renders': 3000, 'sent': 80, 'failures': 60, 'pairs': 700}
ASSUMPTIONS = ['programs run with the same version of all libraries on one machine', 'pickled trees have not opened their files yet']
TIMEOUT = 600

NPROG = 24
CFGS = p24.CFGS


def gen(R, i, tier):
    progs = []
    for k in range(NPROG):
        p = {'prog': imggen.rand_prog(R, CFGS[(i + k) % len(CFGS)]), 'seed': R.randint(0, 10 ** 6)}
        if k % 2:
            p = {'prog': sibling(R, progs[-1]['prog']), 'seed': progs[-1]['seed']}
        if k % 8 == 7:
            p['break'] = R.choice(['missing', 'quant', 'chan', 'border'])
        if k % 6 < 2:
            for leaf in p24.walk_leafs(p['prog']):
                if leaf['kind'] == 'load':
                    leaf['kind'] = 'ident'
        progs.append(p)
    kinds = ['order', 'opt', R.choice(['twice', 'gc', 'import'])]
    configs = []
    for kind in kinds:
        order = list(range(NPROG))
        if kind != 'import':
            R.shuffle(order)
        if kind == 'twice':
            order = order + order[::-1]
        configs.append({'kind': kind, 'hash': R.randint(1, 10 ** 6), 'order': order, 'opt': {'opt': '-O'}.get(kind)})
    return {'progs': progs, 'configs': configs, 'known': i == 0}


CHILD = '''
import sys, json
if sys.argv[6] == 'import':
    import rasterio
    import delayed_image.delayed_leafs
    import delayed_image.helpers
if sys.argv[6] == 'gc':
    import gc
    gc.disable()
sys.path[0:0] = [sys.argv[2], sys.argv[1]]
from vmon.checks import p26
p26.child(*sys.argv[3:6])
'''


def child(scratch, fpath, opath):
    """run by the interpreters"""
    import warnings
    warnings.simplefilter('ignore')
    from osgeo import gdal
    gdal.UseExceptions()
    with open(fpath, 'rb') as f:
        case = pickle.load(f)
    # names of files belong to results
    real = os.getpid
    out = []
    for k in case['order']:
        p = case['progs'][k]
        os.getpid = lambda: 4242
        try:
            d = os.path.join(scratch, f'prog{k}')
            os.makedirs(d, exist_ok=True)
            try:
                node = imgref.build(p['prog'], imgref.Env(d))
            except Exception as ex:
                out.append((k, [('build', 'raises ' + type(ex).__name__)]))
                continue
            res = p24.perform(node, p)
            out.append((k, res + refusals(node)))
        finally:
            os.getpid = real
    sent = []
    for k, data in case['sent']:
        node = pickle.loads(data)
        sent.append((k, p24.perform(node, case['progs'][k])))
    with open(opath, 'wb') as f:
        pickle.dump((out, sent), f)


def refusals(node):
    """calls that a reader refuses"""
    import delayed_image as di
    out = []
    for leaf in util.walk(node):
        if isinstance(leaf, di.DelayedLoad):
            f = leaf.lazy_ref
            for ix in (slice(None, None, 2), (slice(None), slice(None, None, -1)), (slice(0, 2), slice(0, 2), slice(0, 1), 0), 'x', (0, 0, 1.5), (9999,)):
                try:
                    out.append((f'reader[{ix}]', p24.full_hash(f[ix])))
                except Exception as ex:
                    out.append((f'reader[{ix}]', 'raises ' + type(ex).__name__))
            break
    return out


def launch(case, config, ctx, sent, k):
    import delayed_image
    repo = os.path.dirname(os.path.dirname(os.path.abspath(delayed_image.__file__)))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    d = os.path.join(ctx.scratch, 'child')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fpath, opath = os.path.join(ctx.scratch, 'in.pkl'), os.path.join(ctx.scratch, f'out{k}.pkl')
    with open(fpath, 'wb') as f:
        pickle.dump({'progs': case['progs'], 'order': config['order'], 'sent': sent}, f)
    if os.path.exists(opath):
        os.unlink(opath)
    cmd = [sys.executable] + ([config['opt']] if config['opt'] else []) + ['-c', CHILD, root, repo, d, fpath, opath, config['kind']]
    env = dict(os.environ, PYTHONHASHSEED=str(config['hash']), PYTHONPATH=repo)
    cwd = '/' if config['kind'] in ('order', 'import') else ctx.scratch
    p = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=300, cwd=cwd)
    ok = p.returncode == 0 and os.path.exists(opath)
    ctx.count('children')
    ctx.expect(ok, f'interpreter {config["kind"]}: exit {p.returncode}, {p.stderr[-400:]!r}')
    if not ok:
        return [], []
    with open(opath, 'rb') as f:
        return pickle.load(f)


def judge(ctx, want, got, label):
    for (name, a), (_, b) in zip(want, got):
        ctx.count('results')
        ctx.count('renders', name in ('render', 'raw', 'crop', 'scale', 'take', 'again'))
        ctx.count('failures', isinstance(b, str) and b.startswith('raises'))
        # nan differs from itself
        ctx.expect(a == b or repr(a) == repr(b), f'{label}: {name} differs: {str(a)[:200]} and {str(b)[:200]}')
    ctx.expect(len(want) == len(got), f'{label}: {len(got)} results, {len(want)} expected')


def run(case, ctx):
    order = list(range(len(case['progs'])))
    base = {'kind': 'base', 'hash': 0, 'order': order, 'opt': None}
    sent = []
    for k in order:
        p = case['progs'][k]
        if all(leaf['kind'] != 'load' for leaf in p24.walk_leafs(p['prog'])):
            try:
                node = imgref.build(p['prog'], imgref.Env(ctx.scratch))
            except Exception:
                # a sibling may not fit together
                continue
            if k % 2:
                try:
                    node.optimize()
                    node.finalize()
                except Exception:
                    pass
            try:
                sent.append((k, pickle.dumps(node)))
            except Exception as ex:
                msg = f'{type(ex).__name__}: {ex}'
                if 'FusedChannelSpec.as_list' in msg:
                    # the known finding, reported by one case
                    ctx.count('listed specs')
                    continue
                ctx.err(f'a tree of data in memory cannot be pickled: {msg}')
    if case['known']:
        import delayed_image as di
        import numpy as np
        node = di.DelayedIdentity(np.zeros((3, 4, 2)), channels='a|b')
        node.channels.as_list()
        try:
            pickle.dumps(node)
        except pickle.PicklingError:
            ctx.err('a tree of data in memory cannot be pickled: a spec of it was listed before')
    want, back = launch(case, base, ctx, sent, 0)
    want = dict(want)
    for k, got in back:
        ctx.count('sent')
        judge(ctx, want[k], got, f'program {k} sent as a pickle')
    for n, config in enumerate(case['configs']):
        out, back = launch(case, config, ctx, sent if n == 1 else [], n + 1)
        for k, got in out:
            ctx.count('pairs')
            judge(ctx, want[k], got, f'program {k} in an interpreter of kind {config["kind"]}, hash seed {config["hash"]}')
        for k, got in back:
            ctx.count('sent')
            judge(ctx, want[k], got, f'program {k} sent as a pickle to an interpreter of kind {config["kind"]}')
    ctx.distinct([util.opnames(p['prog']) for p in case['progs']], [c['kind'] for c in case['configs']])


def sibling(R, prog):
    """a program that differs a little: whatever remembers something of the
    one under too coarse a key gives it to the other"""
    prog = json.loads(json.dumps(prog))

    def visit(x):
        if isinstance(x, dict):
            if x.get('op') == 'warp' and isinstance(x.get('tf'), dict) and R.random() < .7:
                off = x['tf'].get('offset', [0, 0])
                off = list(off) if isinstance(off, (list, tuple)) else [off, off]
                x['tf']['offset'] = [off[0] + R.choice([-3, 2, 1]), off[1] + R.choice([-2, 3, 1])]
            elif x.get('op') == 'crop' and R.random() < .7:
                for a in 'yx':
                    if isinstance(x.get(a), list) and all(isinstance(v, int) for v in x[a]):
                        d = R.choice([-1, 0, 1])
                        x[a] = [v + d for v in x[a]]
            elif 'kind' in x and 'seed' in x and R.random() < .5:
                x['seed'] += 1
            for k in ('orig_max', 'quant_max'):
                if k in x and R.random() < .5:
                    x[k] += 1
            for v in x.values():
                visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)
    visit(prog)
    return prog
