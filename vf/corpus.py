"""Replay saved inputs: corpus.py ID OUT FILE... (one process)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import sim, target  # noqa: E402
import json  # noqa: E402


def main():
    pid, out, files = sys.argv[1], sys.argv[2], sys.argv[3:]
    target.install(sim.instrument)
    import importlib
    mod = importlib.import_module('vf.checks.' + pid.lower())
    from vf import engine
    res = []
    for path in files:
        with open(path) as f:
            d = json.load(f)
        try:
            engine.replay(mod, d['campaign'], d['case'])
            res.append((path, 'held', ''))
        except engine.Violation as e:
            res.append((path, 'violated', str(e)))
        except engine.Invalid:
            res.append((path, 'held', 'outside the domain'))
        except BaseException as e:  # noqa
            res.append((path, 'error', repr(e)))
    with open(out, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


main()
