#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--runs N]
[--workers N] [--replay FILE]    (see DESIGN.md)"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
           MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONWARNINGS='ignore',
           CUDA_VISIBLE_DEVICES='', TORCH_CPP_LOG_LEVEL='ERROR')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--debug', type=int, help='run one index in process')
    a = ap.parse_args()
    if os.environ.get('SIM_CHILD') != '1':
        env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        env.update(ENV)
        env.setdefault('PYTHONHASHSEED', '0')
        env['SIM_CHILD'] = '1'
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.join(HERE, 'check.py')] + sys.argv[1:],
                  env)
    repo = os.environ.get('SIM_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.path.insert(0, HERE)
    import importlib
    import logging
    import warnings
    warnings.filterwarnings('ignore')
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)
    torch.use_deterministic_algorithms(True, warn_only=True)
    import mmrazor
    assert os.path.realpath(mmrazor.__file__).startswith(
        os.path.realpath(repo)), mmrazor.__file__
    if a.prop == 'selfcheck':
        print('mmrazor', mmrazor.__version__, 'torch', torch.__version__)
        return 0
    mod = importlib.import_module('props.' + a.prop.lower())
    from simkit import driver
    if a.debug is not None:
        import json
        plan = driver.gen_plan(mod, a.seed, a.debug, a.tier)
        print(json.dumps(plan))
        base = driver.scratch_base()
        rec = driver.run_plan(mod, plan, base, 300, True)
        import shutil
        shutil.rmtree(base)
        for t in rec.get('trace', []):
            print('  ', t)
        rec.pop('trace', 0)
        print(json.dumps(rec, indent=1))
        return 0
    return driver.main(mod, a.tier, a.seed, a.replay, a.runs, a.workers)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
