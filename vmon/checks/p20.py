"""
Concurrent use.
"""
import os
import random
import sys
import threading
import time
import warnings

import numpy as np

from vmon import imggen, imgref, sched, util

ID = 'P20'
TITLE = 'Threads and forks that share trees get the results of sequential use'
RULE = ('threads render, optimize, derive from and query one shared tree under a scheduler that preempts at random lines of the library, or one '
        'in-memory tree or their own trees over shared files in parallel with random yields at each node; forked children render unopened '
        'file trees; distinct = distinct sequences of (thread, line) preemptions or (thread, node operation) events')
QUICK, THOROUGH = 360, 8000
REQUIRE = {'renders': 2500, 'switches': 8000, 'threads': 300, 'forks': 40, 'shared': 40, 'scheduled': 100, 'preemptions': 50000}
ASSUMPTIONS = ['GDAL datasets are not thread safe, so threads do not share opened file trees']
TIMEOUT = 60


def gen(R, i, tier):
    mode = ['shared', 'sched', 'files', 'sched', 'sched', 'fork'][i % 6]
    kinds = ('ident',) if mode == 'shared' else ('load',) if mode != 'sched' or R.random() < .6 else ('ident',)
    while True:
        cfg = {'nops': (1, 4), 'nops_outer': (0, 4), 'max_size': 160, 'p_kw': .2, 'kinds': kinds}
        prog = imggen.rand_prog(R, cfg, depth=R.choice([0, 1, 1, 2]))
        if util.nops(prog):
            break
    if mode == 'sched':
        for leaf in imgref.prog_leafs(prog):
            if leaf['kind'] == 'load' and R.random() < .5:
                leaf['nodata'] = R.choice([0, 3, 7])
                leaf['nodata_method'] = R.choice(['float', 'auto', None])
    return {'mode': mode, 'prog': prog, 'n': R.randint(2, 4) if mode == 'sched' else R.randint(3, 6), 'p': R.choice([.3, .1, .03, .01]), 'seed': R.randint(0, 10 ** 9), 'fast': R.randint(0, 1),
            'acts': [[R.choice(['opt', 'opt', 'raw', 'optopt', 'crop', 'take', 'query', 'sub']), R.randint(0, 10 ** 6)] for _ in range(R.randint(2, 4))]}


def act(node, name, rs):
    """one use of the tree; what comes back has to be the same at any time"""
    R = random.Random(rs)
    if name == 'opt':
        return util.plain(node.finalize())
    if name == 'raw':
        return util.plain(node.finalize(optimize=False))
    if name == 'optopt':
        return util.plain(node.optimize().optimize().finalize(optimize=False))
    if name == 'crop':
        h, w, _ = node.shape
        y, x = R.randint(0, h - 1), R.randint(0, w - 1)
        return util.plain(node[y:y + R.randint(1, 40), x:x + R.randint(1, 40)].finalize())
    if name == 'take':
        c = node.num_channels
        return util.plain(node.take_channels(R.sample(range(c), R.randint(1, c))).finalize())
    if name == 'sub':
        return util.plain(node.scale(R.choice([.5, 2, .7])).optimize().finalize())
    g = node.as_graph()
    return [len(g.nodes), len(g.edges), str(node.channels), list(node.shape), util.structure(node.optimize())]


def equal(a, b):
    if isinstance(a, list):
        return None if a == b else f'{str(a)[:300]} != {str(b)[:300]}'
    return util.same(a, b)


def run(case, ctx):
    from delayed_image import lazy_loaders as L
    saved, interval = L.GDAL_FAST_PATH, sys.getswitchinterval()
    L.GDAL_FAST_PATH = case['fast']
    sys.setswitchinterval(1e-5)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if case['mode'] == 'fork':
                run_fork(case, ctx)
            elif case['mode'] == 'sched':
                run_sched(case, ctx)
            else:
                run_threads(case, ctx)
    finally:
        sys.setswitchinterval(interval)
        L.GDAL_FAST_PATH = saved


class Yields:
    """makes each node operation an event with a random delay"""

    def __init__(self, seed):
        self.events = []
        self.R = random.Random(seed)
        self.undo = []

    def __enter__(self):
        from delayed_image import delayed_leafs as DL
        from delayed_image import delayed_nodes as DN
        import delayed_image.delayed_base as DB
        seen = set()
        for mod in (DB, DN, DL):
            for cls in vars(mod).values():
                if not isinstance(cls, type) or cls in seen:
                    continue
                seen.add(cls)
                for name in ('optimize', '_finalize'):
                    if name in vars(cls):
                        self.wrap(cls, name)
        return self

    def wrap(self, cls, name):
        orig = vars(cls)[name]

        def inner(obj, *args, **kw):
            self.events.append((threading.current_thread().name, cls.__name__[7:11] + name[:3]))
            r = self.R.random()
            if r < .5:
                time.sleep(r * 4e-4 if r < .1 else 0)
            return orig(obj, *args, **kw)
        self.undo.append((cls, name, orig))
        setattr(cls, name, inner)

    def __exit__(self, *a):
        for cls, name, orig in self.undo:
            setattr(cls, name, orig)


def run_threads(case, ctx):
    prog, n = case['prog'], case['n']
    base = imgref.build(prog, imgref.Env(ctx.scratch))
    want = {(a, s): act(base, a, s) for a, s in case['acts']}
    # fresh trees without anything memoized
    env = imgref.Env(ctx.scratch)
    if case['mode'] == 'shared':
        trees = [imgref.build(prog, env)] * n
        before = util.snapshot(trees[0])
        ctx.count('shared')
    else:
        trees = [imgref.build(prog, env) for _ in range(n)]
    errs = []
    barrier = threading.Barrier(n)

    def body(j):
        R = random.Random(case['seed'] + j)
        acts = list(case['acts']) * 2
        R.shuffle(acts)
        try:
            barrier.wait(20)
            for a, s in acts:
                e = equal(act(trees[j], a, s), want[(a, s)])
                if e:
                    errs.append(f'{case["mode"]} thread {j} {a}: {e}')
        except Exception as ex:
            from vmon.core import crash_text
            errs.append(f'{case["mode"]} thread {j}: ' + crash_text(ex))
    with Yields(case['seed']) as y:
        threads = [threading.Thread(target=body, args=(j,), name=str(j)) for j in range(n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    for e in errs[:5]:
        ctx.err(e)
    ctx.count('assertions', 1)
    if case['mode'] == 'shared':
        d = util.snapdiff(before, util.snapshot(trees[0]))
        ctx.expect(not d, f'the shared tree changed: {d}')
    ctx.count('threads', n)
    ctx.count('renders', n * 2 * len(case['acts']))
    ctx.count('switches', sum(a[0] != b[0] for a, b in zip(y.events, y.events[1:])))
    ctx.count('events', len(y.events))
    ctx.distinct(y.events)


def unopened(prog, env):
    """the same tree over files that are not opened yet"""
    import delayed_image as di
    node = imgref.build(prog, env)
    for leaf in node.leafs():
        if isinstance(leaf, di.DelayedLoad):
            if not hasattr(leaf, 'lazy_ref'):
                return None
            leaf.lazy_ref = None
    return node


def run_sched(case, ctx):
    import delayed_image as di
    env = imgref.Env(ctx.scratch)
    base = imgref.build(case['prog'], env)
    want = {(a, s): act(base, a, s) for a, s in case['acts']}
    node = unopened(case['prog'], imgref.Env(ctx.scratch))
    if node is None:
        return
    before = util.snapshot(node)
    errs = []

    def user(j):
        R = random.Random(case['seed'] + j)
        acts = list(case['acts'])
        R.shuffle(acts)

        def body():
            try:
                for a, s in acts:
                    e = equal(act(node, a, s), want[(a, s)])
                    if e:
                        errs.append(f'scheduled thread {j} {a}: {e}')
            except Exception as ex:
                from vmon.core import crash_text
                errs.append(f'scheduled thread {j}: ' + crash_text(ex))
        return body
    root = os.path.dirname(os.path.abspath(di.__file__)) + os.sep
    with sched.Sched(root, case['seed'], case['p']) as s:
        done = s.run([user(j) for j in range(case['n'])])
    if not done:
        ctx.count('unfinished')
        return
    for e in errs[:5]:
        ctx.err(e)
    ctx.count('assertions', 1)
    d = util.snapdiff(before, util.snapshot(node))
    ctx.expect(not d, f'the shared tree changed: {d}')
    ctx.count('scheduled')
    ctx.count('preemptions', s.switches)
    ctx.count('line_events', s.lines)
    ctx.count('steals', s.steals)
    ctx.count('renders', case['n'] * len(case['acts']))
    ctx.distinct('sched', s.trace)


def run_fork(case, ctx):
    prog = case['prog']
    env = imgref.Env(ctx.scratch)
    want = {(a, s): act(imgref.build(prog, env), a, s) for a, s in case['acts']}
    node = unopened(prog, env)
    if node is None:
        return
    pids = []
    for j in range(3):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                code = 0
                for a, s in case['acts']:
                    e = equal(act(node, a, s), want[(a, s)])
                    if e:
                        with open(os.path.join(ctx.scratch, f'child{j}'), 'w') as f:
                            f.write(f'{a}: {e}')
                        code = 4
            except BaseException as ex:
                with open(os.path.join(ctx.scratch, f'child{j}'), 'w') as f:
                    f.write(repr(ex)[:500])
                code = 5
            finally:
                os._exit(code)
        pids.append(pid)
    for a, s in case['acts']:
        e = equal(act(node, a, s), want[(a, s)])
        ctx.expect(e is None, f'parent {a}: {e}')
    for j, pid in enumerate(pids):
        _, status = os.waitpid(pid, 0)
        ctx.count('forks')
        p = os.path.join(ctx.scratch, f'child{j}')
        text = ''
        if os.path.exists(p):
            text = open(p).read()
            os.unlink(p)
        ctx.expect(status == 0, f'forked child {j} ended with status {status}: {text}')
    ctx.count('renders', 4 * len(case['acts']))
    ctx.distinct('fork', util.opnames(prog), case['acts'])
