#!/usr/bin/env python3-vt
"""
run.py ID [--tier quick|thorough] [--replay FILE] [--only CAMPAIGN]
run.py ID --worker SHARD NSHARDS TIER SEED BUDGET CURFILE OUTFILE
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', '/tmp/vf-hypothesis')
    os.execv(sys.executable, [sys.executable] + sys.argv)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARDS = 8


def load(pid):
    from vf import sim, target
    target.install(sim.instrument)
    import importlib
    return importlib.import_module('vf.checks.' + pid.lower())


def worker(pid, a):
    import json
    import traceback
    shard, nshards, tier, seed, budget, cur, out = a[:7]
    only = a[7:] or None
    try:
        mod = load(pid)
        from vf import engine
        rep = engine.run_shard(mod, tier, int(seed), int(shard),
                               int(nshards), float(budget), cur, only)
    except BaseException:  # noqa
        rep = {'error': traceback.format_exc()}
    with open(out + '.tmp', 'w') as f:
        json.dump(rep, f)
    os.rename(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


def do_replay(pid, path):
    import json
    import traceback
    with open(path) as f:
        d = json.load(f)
    code = 0
    os.environ['VF_REPLAY'] = '1'
    try:
        mod = load(pid)
        from vf import engine
        try:
            if 'case' in d:
                r = engine.replay(mod, d['campaign'], d['case'],
                                  d.get('tier', 'quick'))
                print('replay: property held:', r)
            else:
                rep = engine.run_shard(mod, d['tier'], d['seed'], d['shard'],
                                       d['nshards'], 600)
                if rep['failure']:
                    raise engine.Violation(rep['failure']['message'])
                print('replay: property held on shard')
        except engine.Violation as e:
            print('replay: VIOLATED:', e)
            code = 1
    except BaseException:  # noqa
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def main():
    a = sys.argv[1:]
    pid = a[0]
    if '--worker' in a:
        return worker(pid, a[2:])
    if '--replay' in a:
        return do_replay(pid, a[a.index('--replay') + 1])
    from vf import parent
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1].split(',') if '--only' in a else []
    sys.exit(parent.check(pid, tier, only))


if __name__ == '__main__':
    main()
