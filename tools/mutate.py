#!/usr/bin/env python3
"""
mutate.py gen DIR               write every mutant of /repo/aiuti as DIR/N.json
mutate.py test DIR [JOBS]       drop those which the existing tests notice
mutate.py check DIR [PART/OF]   run the checks on the rest, until one notices

Mechanical changes (a statement dropped or swapped with the next one, a
condition negated, a comparison or constant changed, an argument dropped, ...).
What survives is read by a human: it is equivalent, outside every property, or
a gap.  Works on scratch copies only.
"""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

import plant

# first line of a top-level definition -> properties whose check may notice
REGIONS = {
    'asyncio': {
        'gather_excs': ['C20'], 'raise_first_exc': ['C20'],
        'to_async_iter': ['C16', 'C03', 'C07'], 'to_sync_iter': ['C16'],
        'threadsafe_async_cache': ['C01', 'C05', 'C06', 'C14', 'C15'],
        'buffer_until_timeout': ['C03', 'C15', 'C07'],
        'BufferAsyncCalls': ['C03', 'C07', 'C15'],
        'async_background_batcher': ['C15', 'C08'],
        'AsyncBackgroundBatcher': ['C04', 'C08', 'C11', 'C10', 'C09', 'C15'],
        '_submit_to_thread': ['C17'], 'ensure_aw': ['C17', 'C07', 'C03'],
        'loop_in_thread': ['C17'], '_get_loop_lock': ['C17'],
        'run_aw_threadsafe': ['C17'], '_as_coro': ['C17'],
        '_aw_to_coro': ['C17'], '_obj_to_aiter': ['C03'],
        '_awaitable_to_aiter': ['C03'], 'DaemonTask': ['C04'],
    },
    'filelock': {None: ['C12', 'C02', 'C13']},
    'itertools': {None: ['C18']},
    'parsing': {None: ['C19']},
    'typing': {None: []},
    'collections': {None: []},
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    b = src.encode()

    def span(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, z = span(n)
        return b[a:z].decode()

    out = []

    def sub(n, new, why, top):
        a, z = span(n)
        if b[a:z].decode() != new:
            out.append((a, z, new, f'{top}:{n.lineno} {why}'))

    def dull(s):
        t = text(s)
        return (t.startswith(('"""', "'''", '_logger.', 'logger.', 'import ',
                              'from ', '@', 'assert '))
                or isinstance(s, (ast.AnnAssign, ast.Pass, ast.Import,
                                  ast.ImportFrom, ast.FunctionDef,
                                  ast.AsyncFunctionDef, ast.ClassDef)))

    def block(body, top):
        for i, s in enumerate(body):
            if dull(s):
                continue
            if not isinstance(s, (ast.If, ast.For, ast.While, ast.Try,
                                  ast.With, ast.AsyncFor, ast.AsyncWith)):
                sub(s, 'pass', f'drop {text(s)[:40]!r}', top)
            if i + 1 < len(body) and not dull(body[i + 1]):
                a, z = span(s)[0], span(body[i + 1])[1]
                m = b[span(s)[1]:span(body[i + 1])[0]].decode()
                out.append((a, z, text(body[i + 1]) + m + text(s),
                            f'{top}:{s.lineno} swap with next'))

    def walk(n, top):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list):
                block(v, top)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            sub(n.test, f'(not ({text(n.test)}))', 'negate', top)
            sub(n.test, 'True', 'true', top)
            sub(n.test, 'False', 'false', top)
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                sub(v, 'True' if isinstance(n.op, ast.And) else 'False',
                    f'drop operand {text(v)!r}', top)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, text(n.operand), 'drop not', top)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sub(n, f'{text(n.left)} {CMP[type(n.ops[0])]} '
                f'{text(n.comparators[0])}', f'compare {text(n)!r}', top)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            sub(n, str(not n.value), 'flip', top)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            sub(n, f'({n.value!r} + 1)', 'plus one', top)
            sub(n, f'({n.value!r} - 1)', 'minus one', top)
        if isinstance(n, ast.BinOp):
            o = {ast.Add: '-', ast.Sub: '+'}.get(type(n.op))
            if o:
                sub(n, f'{text(n.left)} {o} {text(n.right)}', 'operator', top)
        if isinstance(n, ast.Return) and n.value is not None:
            sub(n, 'return None', f'return None for {text(n)[:40]!r}', top)
        if isinstance(n, ast.Await):
            sub(n, text(n.value), 'drop await', top)
        if isinstance(n, ast.Call) and not text(n.func).startswith(
                ('_logger', 'logger')):
            for k in n.keywords:
                rest = [text(a) for a in n.args] + [
                    (f'{x.arg}={text(x.value)}' if x.arg else
                     f'**{text(x.value)}') for x in n.keywords if x is not k]
                sub(n, f'{text(n.func)}({", ".join(rest)})',
                    f'drop {k.arg}=', top)
            if len(n.args) > 1 and not n.keywords:
                sub(n, f'{text(n.func)}('
                    f'{", ".join(text(a) for a in n.args[:-1])})',
                    'drop last argument', top)
            if len(n.args) == 1 and not n.keywords:
                sub(n, text(n.args[0]) if not isinstance(
                    n.args[0], ast.Starred) else text(n), 'drop call', top)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None:
                    for x in ('BaseException', 'Exception', 'ZeroDivisionError'):
                        if text(h.type) != x:
                            sub(h.type, x, f'catch {x}', top)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                if it.optional_vars is None:
                    sub(it.context_expr, '__import__("contextlib").'
                        + ('null' if isinstance(n, ast.With) else 'null')
                        + 'context()', f'no {text(it.context_expr)!r}', top)
        if isinstance(n, (ast.Break, ast.Continue)):
            sub(n, 'continue' if isinstance(n, ast.Break) else 'break',
                'break/continue', top)
        if isinstance(n, ast.arguments):
            pass
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'decorator_list', 'bases',
                     'type_comment'):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    if isinstance(c, ast.AnnAssign):
                        if c.value is not None:
                            walk(c.value, top)
                        continue
                    if isinstance(c, ast.Expr) and dull(c):
                        continue
                    walk(c, top)

    for d in tree.body:
        if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            if any('overload' in ast.dump(x) for x in d.decorator_list):
                continue
            walk(d, d.name)
    for a, z, new, why in out:
        t = (b[:a] + new.encode() + b[z:]).decode()
        try:
            compile(t, 'm', 'exec')
        except SyntaxError:
            continue
        yield t, why


def gen(d):
    os.makedirs(d, exist_ok=True)
    n = 0
    for mod in REGIONS:
        p = f'/repo/aiuti/{mod}.py'
        if not os.path.exists(p):
            continue
        seen = set()
        for t, why in mutants(open(p).read()):
            top = why.split(':')[0]
            r = REGIONS[mod]
            if t in seen or not r.get(top, r.get(None, [])):
                continue
            seen.add(t)
            json.dump({'mod': mod, 'why': why, 'src': t,
                       'checks': r.get(top, r.get(None))},
                      open(f'{d}/{n:04}.json', 'w'))
            n += 1
    print(n, 'mutants')


def with_copy(m, f):
    d, r = plant.copy()
    try:
        open(f'{r}/aiuti/{m["mod"]}.py', 'w').write(m['src'])
        return f(r)
    finally:
        shutil.rmtree(d)


def tests(r):
    """Stops at the first failure, so a hang is cheap."""
    t = tempfile.mkdtemp(prefix='t-')
    try:
        p = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '-p', 'no:xdist', '--timeout=20',
             '--timeout-method=thread', '--basetemp=' + t + '/b',
             '--deselect', 'aiuti/asyncio.py::aiuti.asyncio.to_async_iter',
             '--deselect', 'aiuti/asyncio.py::aiuti.asyncio.to_sync_iter'],
            cwd=r, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                            PYTHONHASHSEED='0'), timeout=200,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return [] if p.returncode == 0 else [p.stdout[-300:]]
    except subprocess.TimeoutExpired:
        return ['timeout']
    finally:
        shutil.rmtree(t)


def test_one(p):
    m = json.load(open(p))
    if 'tests' not in m:
        try:
            m['tests'] = with_copy(m, tests)
        except Exception as e:
            m['tests'] = [repr(e)]
        json.dump(m, open(p, 'w'))
    return m


def test(d, jobs=6):
    ps = sorted(f'{d}/{f}' for f in os.listdir(d) if f.endswith('.json'))
    with cf.ThreadPoolExecutor(int(jobs)) as pool:
        ms = list(pool.map(test_one, ps))
    print(len(ms), 'mutants,', sum(not m['tests'] for m in ms),
          'pass the tests')


def check(d, part='0/1'):
    i, n = map(int, part.split('/'))
    ps = sorted(f'{d}/{f}' for f in os.listdir(d) if f.endswith('.json'))
    ps = [p for p in ps if not json.load(open(p)).get('tests', 1)][i::n]
    for p in ps:
        m = json.load(open(p))
        if 'caught' in m:
            continue

        def go(r):
            for c in m['checks']:
                hit, rc, o = plant.check(c, r)
                if rc:
                    return [c, rc, o[:300]]
            return []
        m['caught'] = with_copy(m, go)
        json.dump(m, open(p, 'w'))
        print(os.path.basename(p)[:-5], m['mod'], m['why'], '->',
              (m['caught'] or ['SURVIVED'])[:2], flush=True)


if __name__ == '__main__':
    {'gen': gen, 'test': test, 'check': check}[sys.argv[1]](*sys.argv[2:])
