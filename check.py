#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--jobs N] [--scenario NAME --runs N]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD='1', MPLBACKEND='agg', SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy',
           OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
           PYGAME_HIDE_SUPPORT_PROMPT='1', QT_QPA_PLATFORM='offscreen')
PY = '/opt/venv/bin/python'


def reexec():
    need = {k: v for k, v in ENV.items() if os.environ.get(k) != v}
    if 'PYTHONHASHSEED' not in os.environ:
        need['PYTHONHASHSEED'] = '0'
    repo = os.environ.get('VERIF_REPO', '/repo')
    if not os.environ.get('PYTHONPATH', '').startswith(repo):
        need['PYTHONPATH'] = repo
    if need or os.path.realpath(sys.executable) != os.path.realpath(PY):
        os.environ.update(need)
        os.execv(PY, [PY] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scenario')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--limit', type=float)
    ap.add_argument('--digests', help='write the event-log digest of every run to this file and exit')
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    import torch
    torch.set_num_threads(1)
    from dst import runner
    import mushroom_rl
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    assert os.path.realpath(mushroom_rl.__file__).startswith(repo + '/'), mushroom_rl.__file__
    mod = importlib.import_module('props.' + a.property.lower())
    check = mod.CHECK
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return runner.replay(check, a.replay)
    if a.digests:
        return runner.digests(check, a.tier, seed, a.digests, a.runs or 10, a.jobs)
    return runner.main(check, a.tier, seed, jobs=a.jobs, limit_s=a.limit, scenario=a.scenario, runs=a.runs)


if __name__ == '__main__':
    reexec()
    import warnings; warnings.simplefilter("ignore")
    try:
        rc = main()
    finally:
        from dst import simdisk
        simdisk.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
