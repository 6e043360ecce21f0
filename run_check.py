#!/opt/venv/bin/python
"""
    run_check.py ID [--tier quick|thorough] [--seed N] [--n CASES] [--replay FILE]
"""
import argparse
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'GDAL_PAM_ENABLED': 'NO', 'VMON_STARTED': '1',
}


def main():
    if os.environ.get('VMON_STARTED') != '1':
        # fixed environment
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(('DELAYED_IMAGE', 'XDEV_', 'PYTHON'))}
        env.update(ENV)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--n', type=int, default=None)
    ap.add_argument('--nproc', type=int, default=8)
    ap.add_argument('--replay', default=None)
    args = ap.parse_args()
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.environ.get('VMON_REPO', '/repo'))
    import tempfile
    import shutil
    cache = tempfile.mkdtemp(prefix='vmoncache_')
    os.environ['XDG_CACHE_HOME'] = cache
    code = 1
    try:
        try:
            import importlib
            import warnings
            warnings.simplefilter('ignore')
            import cv2
            cv2.setNumThreads(1)
            from vmon import core
            mod = importlib.import_module(f'vmon.checks.{args.id.lower()}')
        except Exception as ex:
            import traceback
            traceback.print_exc()
            from vmon import core as core_
            print(f'VIOLATION property={args.id} replay=import-failed:{type(ex).__name__}')
            return 1
        if args.replay:
            code = core.run_replay(mod, args.replay)
        else:
            code = core.run_check(mod, args.tier, args.seed, args.nproc, args.n)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    return code


if __name__ == '__main__':
    sys.exit(main())
