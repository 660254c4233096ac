#!/usr/bin/env python3
"""
plant.py make [ID...]   write /verif/seeded/<id> from tools/plant/<id>.py
plant.py test [ID...]   in scratch copies: builds, tests, demo; then the check
plant.py catch [ID...]  only the check
Never touches /repo.
"""
import concurrent.futures as cf
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = '/verif'
P = V + '/tools/plant'


def load(i):
    spec = importlib.util.spec_from_file_location('bug', f'{P}/{i}.py')
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    r = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'], check=True)
    return d, r


def make(i):
    m = load(i)
    d, r = copy()
    try:
        for f, old, new in m.EDITS:
            p = f'{r}/aiuti/{f}.py'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{i}: {s.count(old)} matches of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], check=True,
                              stdout=subprocess.PIPE, text=True).stdout
        out = f'{V}/seeded/{i}'
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(P + '/util.py', out)
        open(out + '/demo.py', 'w').write('from util import *\n' + m.DEMO)
        open(out + '/demo.sh', 'w').write(
            '#!/bin/bash\n# cwd: the repository\n'
            'exec timeout -k 5 200 /opt/venv/bin/python -B '
            '"$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': m.PROPERTY, 'needs': m.NEEDS,
                   'what_it_breaks': m.BREAKS},
                  open(out + '/meta.json', 'w'), indent=1)
        # at least one original line must go
        rm = [x[1:] for x in diff.splitlines()
              if x.startswith('-') and not x.startswith('---')]
        base = ''.join(subprocess.run(
            ['git', '-C', '/repo', 'show', f'8409637:aiuti/{f}.py'],
            stdout=subprocess.PIPE, text=True).stdout
            for f in ('asyncio', 'filelock', 'itertools', 'parsing'))
        lines = set(base.splitlines())
        if not any(x in lines and x.strip() for x in rm):
            return f'{i}: made; NO ORIGINAL LINE REMOVED'
        return f'{i}: made'
    finally:
        shutil.rmtree(d)


def demo(i, r):
    t = tempfile.mkdtemp(prefix='demo-')
    try:
        for f in ('demo.sh', 'demo.py', 'util.py'):
            shutil.copy(f'{V}/seeded/{i}/{f}', t)
        try:
            p = subprocess.run(['bash', t + '/demo.sh'], cwd=r, timeout=280,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        return p.returncode, p.stdout[-300:]
    finally:
        shutil.rmtree(t)


def tests(r):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    t = tempfile.mkdtemp(prefix='t-')
    try:
        subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-v', '-p',
             'no:cacheprovider', '-n', '1', '--max-worker-restart=100',
             '--timeout=30', '--timeout-method=thread',
             '--continue-on-collection-errors', '--basetemp=' + t + '/b',
             '-o', 'junit_family=xunit2', '--junitxml=' + t + '/j.xml'],
            cwd=r, env=e, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, timeout=800)
        import xml.etree.ElementTree as ET
        ok = set()
        for c in ET.parse(t + '/j.xml').iter('testcase'):
            if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
                ok.add(c.get('classname') + '::' + c.get('name'))
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        return [s for s in st if s not in ok]
    finally:
        shutil.rmtree(t)


def check(prop, r, seed='1'):
    w = tempfile.mkdtemp(prefix='v-')
    try:
        subprocess.run(['cp', '-a', V + '/vf', V + '/mkmanifest.py', w],
                       check=True)
        for x in ('corpus', 'known_findings.txt'):
            if os.path.exists(f'{V}/{x}'):
                subprocess.run(['cp', '-a', f'{V}/{x}', w], check=True)
        p = subprocess.run(
            ['python3-vt', w + '/vf/run.py', prop], cwd=w,
            env=dict(os.environ, VF_REPO=r, VERIF_SEED=seed,
                     VERIF_TIER='quick'),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = p.stdout
        hit = p.returncode == 1 and f'VIOLATION property={prop} ' in o
        return hit, p.returncode, o[-400:].replace('\n', ' | ')
    finally:
        shutil.rmtree(w)


def one(i, do_tests=True):
    d, r = copy()
    try:
        m = json.load(open(f'{V}/seeded/{i}/meta.json'))
        out = ''
        if do_tests:
            a = demo(i, r)
        p = subprocess.run(['git', '-C', r, 'apply',
                            f'{V}/seeded/{i}/patch.diff'])
        if p.returncode:
            return f'{i}: DOES NOT APPLY'
        if do_tests:
            b = demo(i, r)
            t = tests(r)
            if a[0] != 0:
                out += f' DEMO FAILS UNPATCHED {a}'
            if b[0] == 0:
                out += ' DEMO PASSES PATCHED'
            if t:
                out += f' TESTS FAIL {t}'
        return i, m['property'], out, d, r
    except BaseException:
        shutil.rmtree(d)
        raise


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(P + '/*.py')
                     if not f.endswith('util.py'))
    if cmd == 'make':
        for i in ids:
            print(make(i))
        return
    with cf.ThreadPoolExecutor(4 if cmd == 'test' else 1) as pool:
        for res in pool.map(lambda i: one(i, cmd == 'test'), ids):
            if isinstance(res, str):
                print(res, flush=True)
                continue
            i, prop, out, d, r = res
            try:
                if 'nocheck' in os.environ:
                    print(f'{i}:{out or " ok"}', flush=True)
                    continue
                hit, rc, o = check(prop, r)
                print(f'{i}: {"CAUGHT" if hit else "MISSED"}({rc}){out}  '
                      f'{o[:260]}', flush=True)
            finally:
                shutil.rmtree(d)


if __name__ == '__main__':
    main()
