"""
Runner of the checks.

A check is a module with

    ID, TITLE         which property
    RULE              what counts as a distinct non-trivial evaluation
    QUICK, THOROUGH   number of cases of each tier
    gen(R, i, tier)   a JSON case from a random.Random
    run(case, ctx)    executes the real code and reports through ctx
    REQUIRE           minimum of counters below which the run is vacuous

Cases are distributed over forked workers. A worker that dies or hangs in a
case is a violation too (of the property being checked: the real code did not
deliver), the case is named by a journal written before each case starts.
"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_ERRS = 12


class Timeout(BaseException):
    pass


class Ctx:
    def __init__(self, scratch, tier='quick'):
        self.scratch = scratch
        self.tier = tier
        self.errs = []
        self.counts = collections.Counter()
        self.keys = set()
        self.note = None

    def err(self, msg):
        if len(self.errs) < 20:
            self.errs.append(str(msg)[:1500])

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def distinct(self, *sig):
        self.keys.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])

    def expect(self, cond, msg):
        self.counts['assertions'] += 1
        if not cond:
            self.err(msg)
        return cond


def crash_text(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in tb[::-1][:4])
    try:
        text = str(ex)[:300]
    except Exception as ex2:
        text = f'<str() raises {type(ex2).__name__}> {[str(a)[:100] for a in ex.args]}'
    return f'{type(ex).__name__}: {text} [{where}]'


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def run_case(mod, case, scratch, tier, timeout):
    """Run one case, every unexpected exception is a violation"""
    ctx = Ctx(scratch, tier)

    def on_alarm(sig, frm):
        raise Timeout(f'no result within {timeout} s')
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run(case, ctx)
    except Timeout as ex:
        ctx.err(f'hang: {ex}')
    except Exception as ex:
        ctx.err('unexpected exception: ' + crash_text(ex))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx


def gen_case(mod, seed, i, tier):
    R = random.Random(f'{mod.ID}/{seed}/{i}')
    case = mod.gen(R, i, tier)
    return json.loads(json.dumps(jsonable(case)))


def worker(mod, seed, tier, idxs, out, timeout, stop_at):
    scratch = tempfile.mkdtemp(prefix='vmon_')
    try:
        nerr = 0
        with open(out, 'w') as f:
            for n, i in enumerate(idxs):
                if time.time() > stop_at:
                    break
                f.write(json.dumps({'start': i}) + '\n')
                f.flush()
                case = gen_case(mod, seed, i, tier)
                sub = os.path.join(scratch, f'c{i}')
                os.mkdir(sub)
                ctx = run_case(mod, case, sub, tier, timeout)
                shutil.rmtree(sub, ignore_errors=True)
                rec = {'i': i, 'errs': ctx.errs, 'counts': ctx.counts, 'keys': sorted(ctx.keys)}
                if ctx.errs or n == 0:
                    rec['case'] = case
                if ctx.note is not None:
                    rec['note'] = ctx.note
                f.write(json.dumps(rec) + '\n')
                f.flush()
                nerr += bool(ctx.errs)
                if nerr >= MAX_ERRS:
                    break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_known():
    """known_findings.txt: `known: property=ID match=<regex> # text`"""
    out = []
    fpath = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(fpath):
        for line in open(fpath):
            m = re.match(r'known: property=(\S+) match=(.*?)(?: # (.*))?$', line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3) or m.group(2)))
    return out


def write_replay(mod, case, errs, tag):
    dpath = os.path.join(ROOT, 'out')
    os.makedirs(dpath, exist_ok=True)
    fpath = os.path.join(dpath, f'{mod.ID}-{tag}.json')
    with open(fpath, 'w') as f:
        json.dump({'property': mod.ID, 'errors': errs, 'case': case}, f, indent=1)
    return fpath


def finish(mod, tier, seed, total, wall, violations, counts, keys, samples, extra_assumptions=()):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples[:3],
            'observed': dict(sorted(counts.items())),
        },
        'wall_s': round(wall, 2),
        'violations': violations,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + list(extra_assumptions),
    }
    with open(os.path.join(ROOT, 'evidence', f'{mod.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def run_check(mod, tier='quick', seed=1, nproc=8, ncases=None):
    t0 = time.time()
    total = ncases or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    timeout = getattr(mod, 'TIMEOUT', 60)
    budget = 780 if tier == 'thorough' else 420
    tmp = tempfile.mkdtemp(prefix='vmonrun_')
    nproc = min(nproc, total)
    pids = {}
    sys.stdout.flush()
    for p in range(nproc):
        out = os.path.join(tmp, f'{p}.jsonl')
        idxs = list(range(p, total, nproc))
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                os.environ['TMPDIR'] = tmp
                tempfile.tempdir = tmp
                log = os.open(os.path.join(tmp, f'{p}.log'), os.O_WRONLY | os.O_CREAT, 0o600)
                os.dup2(log, 1)
                os.dup2(log, 2)
                worker(mod, seed, tier, idxs, out, timeout, t0 + budget)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        pids[pid] = p
    status = {}
    deadline = t0 + budget + 40
    while pids:
        done, st = os.waitpid(-1, os.WNOHANG)
        if done == 0:
            if time.time() > deadline:
                for pid in pids:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
            time.sleep(0.05)
            continue
        if done in pids:
            status[pids.pop(done)] = st
    counts = collections.Counter()
    keys = set()
    samples = []
    bad = []
    ndone = 0
    for p in range(nproc):
        started = None
        out = os.path.join(tmp, f'{p}.jsonl')
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        for line in lines:
            try:
                rec = json.loads(line)
            except Exception:
                continue
            if 'start' in rec:
                started = rec['start']
                continue
            started = None
            ndone += 1
            counts.update(rec['counts'])
            keys.update(rec['keys'])
            if 'case' in rec and not rec['errs']:
                samples.append(json.dumps(rec.get('note') or rec['case'])[:600])
            if rec['errs']:
                bad.append((rec['i'], rec['case'], rec['errs']))
        if status.get(p, 1) != 0:
            log = os.path.join(tmp, f'{p}.log')
            tail = open(log, errors='replace').read()[-800:] if os.path.exists(log) else ''
            case = None
            if started is not None:
                try:
                    case = gen_case(mod, seed, started, tier)
                except Exception:
                    pass
            bad.append((started, case, [f'worker died (status {status.get(p)}) in case {started}: {tail}']))
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    known = [k for k in load_known() if k[0] == mod.ID]
    violations = []
    for i, case, errs in sorted(bad, key=lambda b: -1 if b[0] is None else b[0]):
        rest = []
        for e in errs:
            for _, rx, text in known:
                if rx.search(e):
                    print(f'KNOWN-FINDING: property={mod.ID} {text}')
                    break
            else:
                rest.append(e)
        if rest:
            violations.append((i, case, rest))
    extra = []
    if not violations and not bad and ncases is None:
        for name, lo in getattr(mod, 'REQUIRE', {}).items():
            if counts[name] < lo:
                violations.append((None, None, [f'vacuous: {name} observed {counts[name]} < {lo} times']))
    for i, case, errs in violations[:5]:
        tag = f'{tier}-s{seed}-{"x" if i is None else i}'
        fpath = write_replay(mod, case, errs, tag)
        print(f'VIOLATION property={mod.ID} replay={fpath}')
        for e in errs[:3]:
            print('   ', e[:600])
    finish(mod, tier, seed, ndone, wall, len(violations), counts, keys, samples, extra)
    print(f'{mod.ID} {tier} seed={seed}: {ndone}/{total} cases, {len(keys)} distinct, '
          f'{len(violations)} violations, {wall:.1f}s; ' + ', '.join(f'{k}={v}' for k, v in sorted(counts.items())))
    return 1 if violations else 0


def run_replay(mod, fpath):
    doc = json.load(open(fpath))
    scratch = tempfile.mkdtemp(prefix='vmon_')
    try:
        ctx = run_case(mod, doc['case'], scratch, 'quick', 300)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for e in ctx.errs:
        print(e)
    if ctx.errs:
        print(f'VIOLATION property={mod.ID} replay={fpath}')
    return 1 if ctx.errs else 0
