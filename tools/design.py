#!/usr/bin/env python3-vt
"""
Rewrites the generated part of DESIGN.md (campaigns, repaired defects,
planted changes) from the checks, known_findings.txt, seeded/ and
tools/caught.txt (lines "ID caught|missed CHECK", from plant.py runs).
"""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vf.sim  # noqa: E402,F401  (before asyncio)


def campaigns():
    out = ['### Campaigns', '',
           '(cases per run: quick / thorough; "all" = the whole enumeration)',
           '']
    for n in range(1, 21):
        m = importlib.import_module(f'vf.checks.c{n:02}')
        q = m.campaigns('quick')
        t = {c.name: c for c in m.campaigns('thorough')}
        out.append(f'* C{n:02}: ' + '; '.join(
            f'`{c.name}` {c.quick or "all"}/{t[c.name].thorough or "all"}'
            + (f' ({c.desc})' if c.desc else '') for c in q))
    return out


def repaired():
    out = ['### Repaired defects (commits "fix:" in /repo)', '']
    for x in open(V + '/known_findings.txt'):
        if x.startswith('fixed: '):
            p, c, what = x[7:].split(' ', 2)
            out.append(f'* {p[9:]} `{c}`: {what.strip()}')
    return out


def planted():
    res = {}
    for x in open(V + '/tools/caught.txt'):
        i, r = x.split()[:2]
        res[i] = r
    out = ['### Planted changes (seeded/) and the check that reports them', '']
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        i = f.split('/')[-2]
        m = json.load(open(f))
        out.append(f'* `{i}` ({m["property"]} {res.get(i, "not run")}): '
                   f'{m["what_it_breaks"]} Needs: {m["needs"]}.')
    return out


p = V + '/DESIGN.md'
s = open(p).read()
a = s.index('<!-- generated -->')
body = '\n'.join(campaigns() + [''] + repaired() + [''] + planted())
open(p, 'w').write(s[:a] + '<!-- generated -->\n\n' + body + '\n')
