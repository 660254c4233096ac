#!/usr/bin/env python3
"""
quiet.py [-t] [NAME...] [+CHECK...]
Applies tools/quiet/NAME.py (edits which change no behaviour) to a scratch
copy; the tests, the demonstrations and the checks must all stay quiet.
-t: only tests and demonstrations.  Never touches /repo.
"""
import concurrent.futures as cf
import glob
import os
import shutil
import sys

import plant

Q = plant.V + '/tools/quiet'


def edited(name):
    plant.P = Q
    m = plant.load(name)
    d, r = plant.copy()
    for f, old, new in m.EDITS:
        p = f'{r}/aiuti/{f}.py'
        s = open(p).read()
        assert s.count(old) == 1, (name, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    return d, r


def main():
    args = sys.argv[1:]
    only = [a[1:] for a in args if a[0] == '+']
    names = [a for a in args if a[0] not in '+-'] or sorted(
        os.path.basename(f)[:-3] for f in glob.glob(Q + '/*.py'))
    for n in names:
        d, r = edited(n)
        try:
            bad = plant.tests(r)
            print(n, 'tests', bad or 'ok', flush=True)
            if not only:
                ids = sorted(os.listdir(plant.V + '/seeded'))
                with cf.ThreadPoolExecutor(4) as pool:
                    for i, x in zip(ids, pool.map(
                            lambda i: plant.demo(i, r), ids)):
                        if x[0] != 0:
                            print(n, 'demo', i, x, flush=True)
            if '-t' in args:
                continue
            for c in only or [f'C{k:02}' for k in range(1, 21)]:
                hit, rc, o = plant.check(c, r)
                if rc:
                    print(n, c, 'NOT QUIET', rc, o, flush=True)
            print(n, 'checks done', flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
