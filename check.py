#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--only SUB,...]
   check.py ID --replay FILE
Decides one property of /verif/properties.jsonl by generated-input search."""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONPYCACHEPREFIX': '/nonexistent/verif-pycache'}

if __name__ == '__main__' and os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env['VERIF_CHILD'] = '1'
    env.pop('PYTHONPATH', None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse
import importlib
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def setup():
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, HERE)
    sys.path.insert(0, repo)
    # Hypothesis lives in the tooling venv; numpy and friends must keep
    # coming from the project's own environment, so append.
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    warnings.simplefilter('ignore')
    import numpy
    import hypothesis
    import paragami
    where = os.path.dirname(os.path.abspath(paragami.__file__))
    if os.path.realpath(where) != os.path.realpath(
            os.path.join(repo, 'paragami')):
        print('paragami was imported from {}'.format(where))
        sys.exit(2)
    if '/opt/veriftools' in numpy.__file__:
        print('numpy was imported from {}'.format(numpy.__file__))
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    args = ap.parse_args()
    setup()
    from pbt import core
    mod = importlib.import_module('pbt.props.' + args.pid.lower())
    if args.replay:
        return core.replay(mod.PROP, args.replay)
    only = args.only.split(',') if args.only else None
    return core.run_prop(mod.PROP, args.tier, args.seed, only)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
